From 5ff658f04e2209d6ab648b8d08311ac463473d70 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 001/102] fix: filter: keep nil/true/false comparisons with
 operators other than = and <>

Col with one of these values and an operator like > added an AND with
nothing after it (invalid SQL), or, as the first predicate, dropped the
comparison silently.
---
 filter/filter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..af59ac9 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -210,6 +210,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NULL"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT NULL"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case true:
 			switch op {
@@ -217,6 +219,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS TRUE"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT TRUE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case false:
 			switch op {
@@ -224,6 +228,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS FALSE"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT FALSE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		default:
 			c.filter.where = append(c.filter.where, sqlBinary{
-- 
2.43.0


From 2f1884a8d86014d2787edaadb32c767f7b95949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 002/102] fix: filter: render IN with an empty list as FALSE
 instead of the invalid "IN ()"

---
 filter/convenience.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..46047c8 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -14,6 +14,12 @@ type sqlIn[T any] struct {
 func (sqlIn[T]) canAndOr() bool { return true }
 
 func (n sqlIn[T]) write(w *sqlWriter) {
+	if len(n.vals) == 0 {
+		// "IN ()" is not valid SQL, nothing is a member of an empty list
+		w.WriteString("FALSE")
+		return
+	}
+
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
 	for i := range n.vals {
-- 
2.43.0


From 4803d57022e54304e8b149c5a0bf67c57e49e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 003/102] fix: filter: leave out empty groups and operators
 that no predicate follows

And(func(){}) produced "()" and a trailing And(nil)/Or(nil) produced a
dangling operator, both of which are invalid SQL.
---
 filter/filter.go | 49 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index af59ac9..55db2a1 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -144,6 +144,25 @@ func (c *Constructor) canAndOr() bool {
 	return len(c.filter.where) > 0 && c.filter.where[len(c.filter.where)-1].canAndOr()
 }
 
+// trimAndOr removes the sqlAnd/sqlOr node, if there is one, from the end of
+// the sqlNode list. The first start number of nodes are left as they are.
+func (c *Constructor) trimAndOr(start int) {
+	if n := len(c.filter.where); n > start {
+		switch c.filter.where[n-1].(type) {
+		case sqlAnd, sqlOr:
+			c.filter.where = c.filter.where[:n-1]
+		}
+	}
+}
+
+// isLParen reports whether or not the last node in the list is the sqlLParen node.
+func (c *Constructor) isLParen() (ok bool) {
+	if n := len(c.filter.where); n > 0 {
+		_, ok = c.filter.where[n-1].(sqlLParen)
+	}
+	return ok
+}
+
 // StrictSwitch switches the strict mode on and off.
 func (c *Constructor) StrictSwitch() { c.strict = !c.strict }
 
@@ -257,6 +276,7 @@ func (c *Constructor) TextSearch(value string) {
 //
 // The And method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) And(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlAnd{})
 	}
@@ -264,6 +284,12 @@ func (c *Constructor) And(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
+		c.trimAndOr(start)
+		if c.isLParen() {
+			// nothing was added by nest
+			c.filter.where = c.filter.where[:start]
+			return
+		}
 		c.filter.where = append(c.filter.where, sqlRParen{})
 	}
 }
@@ -274,6 +300,7 @@ func (c *Constructor) And(nest func()) {
 //
 // The Or method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) Or(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlOr{})
 	}
@@ -281,6 +308,12 @@ func (c *Constructor) Or(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
+		c.trimAndOr(start)
+		if c.isLParen() {
+			// nothing was added by nest
+			c.filter.where = c.filter.where[:start]
+			return
+		}
 		c.filter.where = append(c.filter.where, sqlRParen{})
 	}
 }
@@ -470,6 +503,18 @@ type filter struct {
 	offset int64
 }
 
+// whereNodes returns the list of nodes for the WHERE clause without
+// the sqlAnd/sqlOr node that is not (yet) followed by a predicate.
+func (f *filter) whereNodes() []sqlNode {
+	if n := len(f.where); n > 0 {
+		switch f.where[n-1].(type) {
+		case sqlAnd, sqlOr:
+			return f.where[:n-1]
+		}
+	}
+	return f.where
+}
+
 var (
 
 	// make sure filter implements gosql.Filter
@@ -485,7 +530,7 @@ func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
 	if len(f.where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range f.whereNodes() {
 			node.write(&w)
 		}
 	}
@@ -520,7 +565,7 @@ func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}
 	w := sqlWriter{p: ppos}
 	if len(f.where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range (*filter)(f).whereNodes() {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From c1f525b9a906e2773c96f2fb3465a7edbac9e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 004/102] fix: filter: omit the operator together with an FQL
 rule whose key is unknown

In the non-strict mode "a:1;unknown:2" produced "a = $1 AND ", other
placements produced a leading operator or an empty group, all of them
invalid SQL.
---
 filter/filter.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 55db2a1..00f0f7c 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -391,6 +391,7 @@ func (c *Constructor) Page(page int64) {
 // Constructor's colmap, the UnknownColumnKeyError will be returned.
 func (c *Constructor) UnmarshalFQL(str string) error {
 	str = strings.Trim(str, ";,") // sanitize
+	start := len(c.filter.where)
 
 	z := fql.NewTokenizer(str)
 	for {
@@ -409,11 +410,26 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 			}
 			c.filter.where = append(c.filter.where, sqlLParen{})
 		case fql.RPAREN:
+			c.trimAndOr(start)
+			if c.isLParen() {
+				// all of the group's rules have unknown keys
+				c.filter.where = c.filter.where[:len(c.filter.where)-1]
+				continue
+			}
 			c.filter.where = append(c.filter.where, sqlRParen{})
 		case fql.AND:
-			c.filter.where = append(c.filter.where, sqlAnd{})
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlAnd{})
+			}
 		case fql.OR:
-			c.filter.where = append(c.filter.where, sqlOr{})
+			// If the preceding rule was omitted because of an unknown key then
+			// its AND must not tie together what this OR separates.
+			if !c.canAndOr() {
+				c.trimAndOr(start)
+			}
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlOr{})
+			}
 		case fql.RULE:
 			rule := z.Rule()
 			if col, ok := c.colmap[rule.Key]; ok {
@@ -436,6 +452,7 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 			}
 		}
 	}
+	c.trimAndOr(start)
 	return nil
 }
 
-- 
2.43.0


From ab841525a81f94cac8f012c4b20515a3cb53c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 005/102] fix: filter: Page must not wrap around to the first
 rows when limit*(page-1) overflows

---
 filter/filter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 00f0f7c..8bb3ab1 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -2,6 +2,7 @@ package filter
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -382,6 +383,9 @@ func (c *Constructor) Offset(start int64) {
 func (c *Constructor) Page(page int64) {
 	if page > 0 && c.filter.limit >= 0 {
 		c.filter.offset = c.filter.limit * (page - 1)
+		if c.filter.limit > 0 && page-1 > math.MaxInt64/c.filter.limit {
+			c.filter.offset = math.MaxInt64 // the product overflows
+		}
 	}
 }
 
-- 
2.43.0


From 5deecf565cbe9d36dc07640fed8d2747aed99700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 006/102] fix: quote char[] elements and read them as array
 elements

Characters that need quoting, empty strings, \a and \b were written as malformed or
shortened arrays, and reading split on bytes instead of elements. A char read over an
existing value now also resets it on NULL.
---
 pgsql/char.go         |  36 +++++------
 pgsql/chararr.go      | 140 ++++++++++++++++--------------------------
 pgsql/convert_util.go |  84 +++++++++----------------
 3 files changed, 100 insertions(+), 160 deletions(-)

diff --git a/pgsql/char.go b/pgsql/char.go
index 18ff44b..a81ee99 100644
--- a/pgsql/char.go
+++ b/pgsql/char.go
@@ -39,16 +39,17 @@ type charToByte struct {
 }
 
 func (v charToByte) Scan(src interface{}) error {
-	switch data := src.(type) {
-	case string:
-		if len(data) > 0 {
-			*v.val = data[0]
-		}
-	case []byte:
-		if len(data) > 0 {
-			*v.val = data[0]
-		}
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if len(data) == 0 {
+		*v.val = 0
+		return nil
+	} else if data[0] >= utf8.RuneSelf {
+		return errNotOneByte
 	}
+
+	*v.val = data[0]
 	return nil
 }
 
@@ -65,15 +66,14 @@ type charToRune struct {
 }
 
 func (v charToRune) Scan(src interface{}) error {
-	switch data := src.(type) {
-	case string:
-		if len(data) > 0 {
-			*v.val, _ = utf8.DecodeRuneInString(data)
-		}
-	case []byte:
-		if len(data) > 0 {
-			*v.val, _ = utf8.DecodeRune(data)
-		}
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if len(data) == 0 {
+		*v.val = 0
+		return nil
 	}
+
+	*v.val, _ = utf8.DecodeRune(data)
 	return nil
 }
diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..cf10379 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -55,30 +55,12 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
+	out := make([]byte, 1, (len(v.val)*4)+1)
 	out[0] = '{'
 
 	for _, r := range v.val {
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size := utf8.RuneLen(r); size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+		out = pgAppendQuote1(out, []byte(string(r)))
+		out = append(out, ',')
 	}
 
 	out[len(out)-1] = '}'
@@ -94,11 +76,19 @@ func (v charArrayToString) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = ""
 		return nil
 	}
 
-	bytes := pgparsearray2(data)
-	*v.val = string(bytes)
+	var out []byte
+	for _, elem := range pgParseStringArray(data) {
+		if utf8.RuneCount(elem) != 1 {
+			return errNotOneChar
+		}
+		out = append(out, elem...)
+	}
+
+	*v.val = string(out)
 	return nil
 }
 
@@ -113,22 +103,12 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
+	out := make([]byte, 1, (len(v.val)*4)+1)
 	out[0] = '{'
 
 	for _, b := range v.val {
-		switch b {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', b, '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', b, '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			out = append(out, b, ',')
-		}
+		out = pgAppendQuote1(out, []byte{b})
+		out = append(out, ',')
 	}
 
 	out[len(out)-1] = '}'
@@ -148,8 +128,20 @@ func (v charArrayToByteSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	bytes := pgparsearray2(data)
-	*v.val = bytes
+	elems := pgParseStringArray(data)
+	out := make([]byte, len(elems))
+	for i := 0; i < len(elems); i++ {
+		switch len(elems[i]) {
+		case 0:
+			continue // NULL
+		case 1:
+			out[i] = elems[i][0]
+		default:
+			return errNotOneByte
+		}
+	}
+
+	*v.val = out
 	return nil
 }
 
@@ -164,30 +156,12 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
+	out := make([]byte, 1, (len(v.val)*4)+1)
 	out[0] = '{'
 
 	for _, r := range v.val {
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size := utf8.RuneLen(r); size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+		out = pgAppendQuote1(out, []byte(string(r)))
+		out = append(out, ',')
 	}
 
 	out[len(out)-1] = '}'
@@ -207,8 +181,19 @@ func (v charArrayToRuneSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	runes := pgparsearray3(data)
-	*v.val = runes
+	elems := pgParseStringArray(data)
+	out := make([]rune, len(elems))
+	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 0 {
+			continue // NULL
+		}
+		if utf8.RuneCount(elems[i]) != 1 {
+			return errNotOneChar
+		}
+		out[i], _ = utf8.DecodeRune(elems[i])
+	}
+
+	*v.val = out
 	return nil
 }
 
@@ -223,31 +208,12 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
+	out := make([]byte, 1, (len(v.val)*4)+1)
 	out[0] = '{'
 
-	for _, v := range v.val {
-		r, size := utf8.DecodeRuneInString(v)
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+	for _, s := range v.val {
+		out = pgAppendQuote1(out, []byte(s))
+		out = append(out, ',')
 	}
 
 	out[len(out)-1] = '}'
@@ -267,10 +233,10 @@ func (v charArrayToStringSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	runes := pgparsearray3(data)
-	val := make([]string, len(runes))
+	elems := pgParseStringArray(data)
+	val := make([]string, len(elems))
 	for i := 0; i < len(val); i++ {
-		val[i] = string(runes[i])
+		val[i] = string(elems[i])
 	}
 	*v.val = val
 	return nil
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..d351ea1 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -1,8 +1,9 @@
 package pgsql
 
 import (
-	"bytes"
 	"encoding/hex"
+	"errors"
+	"strconv"
 	"time"
 )
 
@@ -28,60 +29,10 @@ func srcbytes(src interface{}) ([]byte, error) {
 	return nil, nil // TODO error
 }
 
-// parse as single bytes
-func pgparsearray2(a []byte) (out []byte) {
-	out = make([]byte, 0, len(a))
-
-	a = a[1 : len(a)-1] // drop curly braces
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' {
-			if a[i+1] == '\\' {
-				out = append(out, a[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, a[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if a[i] != ',' {
-			out = append(out, a[i])
-		}
-	}
-
-	return out
-}
-
-// parse as single runes
-func pgparsearray3(a []byte) (out []rune) {
-	out = make([]rune, 0)
-
-	a = a[1 : len(a)-1] // drop curly braces
-	r := bytes.Runes(a)
-
-	for i := 0; i < len(r); i++ {
-		if r[i] == '"' {
-			if r[i+1] == '\\' {
-				out = append(out, r[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, r[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if r[i] != ',' {
-			out = append(out, r[i])
-		}
-	}
-
-	return out
-}
+var (
+	errNotOneByte = errors.New("pgsql: value is not a single byte")
+	errNotOneChar = errors.New("pgsql: value is not a single character")
+)
 
 func pgparsehstore(a []byte) (out [][2][]byte) {
 	if len(a) == 0 {
@@ -779,3 +730,26 @@ func pgAppendQuote2(buf, elem []byte) []byte {
 	}
 	return append(buf, '\\', '"')
 }
+
+// pgAppendMoney appends the given number of cents in the format "$D.CC" or "-$D.CC".
+func pgAppendMoney(buf []byte, cents int64) []byte {
+	u := uint64(cents)
+	if cents < 0 {
+		buf = append(buf, '-')
+		u = -u
+	}
+	buf = append(buf, '$')
+	buf = strconv.AppendUint(buf, u/100, 10)
+	return append(buf, '.', byte('0'+u%100/10), byte('0'+u%10))
+}
+
+// Expected format: '$D[,DDD...].CC', with a leading '-' if negative.
+func pgParseMoney(a []byte) (int64, error) {
+	digits := make([]byte, 0, len(a))
+	for i := 0; i < len(a); i++ {
+		if (a[i] >= '0' && a[i] <= '9') || (a[i] == '-' && len(digits) == 0) {
+			digits = append(digits, a[i])
+		}
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
-- 
2.43.0


From b74f837a439a14eedb7181aee6d76dabc046afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 007/102] fix: write and read money with integer arithmetic

Going through float64 lost cents, and amounts with thousands separators or a sign could
not be read.
---
 pgsql/money.go    | 11 ++++-------
 pgsql/moneyarr.go | 15 ++++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..7ab8e4b 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyFromInt64 returns a driver.Valuer that produces a PostgreSQL money from the given Go int64.
@@ -21,9 +20,7 @@ type moneyFromInt64 struct {
 }
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
-	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
-	return out, nil
+	return pgAppendMoney(nil, v.val), nil
 }
 
 type moneyToInt64 struct {
@@ -35,15 +32,15 @@ func (v moneyToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	i64, err := pgParseMoney(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = i64
 	return nil
 }
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..4cf7505 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -35,8 +34,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendMoney(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +55,19 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
+		if elems[i] == nil {
+			continue // NULL
+		}
+
+		i64, err := pgParseMoney(elems[i])
 		if err != nil {
 			return err
 		}
 
-		int64s[i] = int64(f64 * 100.0)
+		int64s[i] = i64
 	}
 
 	*v.val = int64s
-- 
2.43.0


From 17193ca9876062f8d56e251803adc768b37d5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 008/102] fix: write nil bytea[] elements as NULL and read NULL
 elements

---
 pgsql/byteaarr.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 6773d7b..82ef44f 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -41,6 +41,11 @@ func (v byteaArrayFromByteSliceSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
+		if v.val[i] == nil {
+			out = append(out, `NULL,`...)
+			continue
+		}
+
 		out = append(out, '"', '\\', '\\', 'x')
 
 		dst := make([]byte, hex.EncodedLen(len(v.val[i])))
@@ -71,6 +76,9 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if len(src) < 5 {
+			continue // NULL
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
@@ -133,6 +141,9 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if len(src) < 5 {
+			continue // NULL
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
-- 
2.43.0


From 63d08b283cd550c46e516d3ce4da93b5e81adb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 009/102] fix: handle NULL, missing masks and host bits of
 network types

Unset elements of cidr[], inet[], macaddr[] and macaddr8[] were written as malformed text
or dropped and NULL elements could not be read, the host bits of an inet were lost, and
reading NULL kept the previous value.
---
 pgsql/cidr.go         |  1 +
 pgsql/cidrarr.go      | 10 +++++++++-
 pgsql/convert_util.go | 18 ++++++++++++++++++
 pgsql/inet.go         | 19 +++++++++++++++----
 pgsql/inetarr.go      | 36 ++++++++++++++++++++++++++++--------
 pgsql/macaddr.go      |  1 +
 pgsql/macaddrarr.go   | 10 +++++++++-
 7 files changed, 81 insertions(+), 14 deletions(-)

diff --git a/pgsql/cidr.go b/pgsql/cidr.go
index 3534f53..f95a610 100644
--- a/pgsql/cidr.go
+++ b/pgsql/cidr.go
@@ -40,6 +40,7 @@ func (v cidrToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
diff --git a/pgsql/cidrarr.go b/pgsql/cidrarr.go
index 5830403..87445c1 100644
--- a/pgsql/cidrarr.go
+++ b/pgsql/cidrarr.go
@@ -30,6 +30,10 @@ func (v cidrArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for i := 0; i < len(v.val); i++ {
+		if len(v.val[i].IP) == 0 && len(v.val[i].Mask) == 0 {
+			out = append(out, `NULL,`...)
+			continue
+		}
 		out = append(out, []byte(v.val[i].String())...)
 		out = append(out, ',')
 	}
@@ -51,9 +55,13 @@ func (v cidrArrayToIPNetSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		_, ipnet, err := net.ParseCIDR(string(elems[i]))
 		if err != nil {
 			return err
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index d351ea1..9089379 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"encoding/hex"
 	"errors"
+	"net"
 	"strconv"
 	"time"
 )
@@ -753,3 +754,20 @@ func pgParseMoney(a []byte) (int64, error) {
 	}
 	return strconv.ParseInt(string(digits), 10, 64)
 }
+
+// Expected format: 'address[/y]', where y is the number of bits in the netmask.
+func pgParseInet(str string) (net.IPNet, error) {
+	ip, ipnet, err := net.ParseCIDR(str)
+	if err != nil {
+		if ip = net.ParseIP(str); ip == nil {
+			return net.IPNet{}, err
+		}
+		return net.IPNet{IP: ip}, nil
+	}
+
+	ipnet.IP = ip // keep the host bits
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		ipnet.IP = ip4
+	}
+	return *ipnet, nil
+}
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..31c8c3f 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -34,6 +34,9 @@ func (v inetFromIPNet) Value() (driver.Value, error) {
 	if v.val.IP == nil && v.val.Mask == nil {
 		return nil, nil
 	}
+	if v.val.Mask == nil {
+		return []byte(v.val.IP.String()), nil
+	}
 	return []byte(v.val.String()), nil
 }
 
@@ -49,14 +52,16 @@ func (v inetToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
-	_, ipnet, err := net.ParseCIDR(str)
+	ipnet, err := pgParseInet(str)
 	if err != nil {
-		ipnet = &net.IPNet{IP: net.ParseIP(str)}
+		return err
 	}
-	*v.val = *ipnet
+
+	*v.val = ipnet
 	return nil
 }
 
@@ -83,9 +88,15 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
-	*v.val = net.ParseIP(str)
+	ip := net.ParseIP(str)
+	if ip == nil {
+		return &net.ParseError{Type: "IP address", Text: str}
+	}
+
+	*v.val = ip
 	return nil
 }
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..e1e1ea3 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,7 +40,15 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
-		out = append(out, []byte(ipnet.String())...)
+		if ipnet.IP == nil && ipnet.Mask == nil {
+			out = append(out, `NULL,`...)
+			continue
+		}
+		if ipnet.Mask == nil {
+			out = append(out, []byte(ipnet.IP.String())...)
+		} else {
+			out = append(out, []byte(ipnet.String())...)
+		}
 		out = append(out, ',')
 	}
 
@@ -61,14 +69,16 @@ func (v inetArrayToIPNetSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
-		_, ipnet, err := net.ParseCIDR(string(elems[i]))
-		if err != nil {
-			ipnet = &net.IPNet{IP: net.ParseIP(string(elems[i]))}
+		if elems[i] == nil {
+			continue // NULL
+		}
+
+		if ipnets[i], err = pgParseInet(string(elems[i])); err != nil {
+			return err
 		}
-		ipnets[i] = *ipnet
 	}
 
 	*v.val = ipnets
@@ -89,6 +99,10 @@ func (v inetArrayFromIPSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ip := range v.val {
+		if ip == nil {
+			out = append(out, `NULL,`...)
+			continue
+		}
 		out = append(out, []byte(ip.String())...)
 		out = append(out, ',')
 	}
@@ -110,10 +124,16 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
-		ips[i] = net.ParseIP(string(elems[i]))
+		if elems[i] == nil {
+			continue // NULL
+		}
+
+		if ips[i] = net.ParseIP(string(elems[i])); ips[i] == nil {
+			return &net.ParseError{Type: "IP address", Text: string(elems[i])}
+		}
 	}
 
 	*v.val = ips
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddrarr.go b/pgsql/macaddrarr.go
index 2a074c6..4b81cfe 100644
--- a/pgsql/macaddrarr.go
+++ b/pgsql/macaddrarr.go
@@ -30,6 +30,10 @@ func (v macAddrArrayFromHardwareAddrSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, mac := range v.val {
+		if mac == nil {
+			out = append(out, `NULL,`...)
+			continue
+		}
 		out = append(out, []byte(mac.String())...)
 		out = append(out, ',')
 	}
@@ -51,9 +55,13 @@ func (v macAddrArrayToHardwareAddrSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	macs := make([]net.HardwareAddr, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		if macs[i], err = net.ParseMAC(string(elems[i])); err != nil {
 			return err
 		}
-- 
2.43.0


From 6eb25aaae4b39b206b8c06aaa91f1a3f99ac300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 010/102] fix: reset the destination when a reader gets NULL

Several readers left the previous value of the destination in place, so that a reused
variable kept the value of an earlier row.
---
 pgsql/box.go          |  1 +
 pgsql/daterange.go    |  1 +
 pgsql/daterangearr.go |  2 +-
 pgsql/hstore.go       |  3 +++
 pgsql/hstorearr.go    |  3 +++
 pgsql/int4range.go    | 12 ++++++++++++
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8range.go    | 12 ++++++++++++
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/line.go         |  1 +
 pgsql/linearr.go      |  1 +
 pgsql/lseg.go         |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/numrange.go     | 12 ++++++++++++
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 pgsql/point.go        |  1 +
 pgsql/pointarr.go     |  1 +
 pgsql/tsrange.go      |  1 +
 pgsql/tstzrange.go    |  1 +
 pgsql/uuid.go         |  1 +
 pgsql/varbit.go       |  1 +
 21 files changed, 91 insertions(+), 37 deletions(-)

diff --git a/pgsql/box.go b/pgsql/box.go
index 361f6f0..d9707dc 100644
--- a/pgsql/box.go
+++ b/pgsql/box.go
@@ -45,6 +45,7 @@ func (v boxToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/daterange.go b/pgsql/daterange.go
index 22d6e25..5256048 100644
--- a/pgsql/daterange.go
+++ b/pgsql/daterange.go
@@ -72,6 +72,7 @@ func (v dateRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4range.go b/pgsql/int4range.go
index 9d912d3..07d6592 100644
--- a/pgsql/int4range.go
+++ b/pgsql/int4range.go
@@ -148,6 +148,7 @@ func (v int4RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int4RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int4RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int4RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int4RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int4RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int4RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int4RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int4RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int4RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int4RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int4RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8range.go b/pgsql/int8range.go
index fff0d7d..aea0f72 100644
--- a/pgsql/int8range.go
+++ b/pgsql/int8range.go
@@ -148,6 +148,7 @@ func (v int8RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int8RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int8RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int8RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int8RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int8RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int8RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int8RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int8RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int8RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int8RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int8RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/line.go b/pgsql/line.go
index afabe56..a01893b 100644
--- a/pgsql/line.go
+++ b/pgsql/line.go
@@ -42,6 +42,7 @@ func (v lineToFloat64Array3) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [3]float64{}
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lseg.go b/pgsql/lseg.go
index b25849f..3acb3e6 100644
--- a/pgsql/lseg.go
+++ b/pgsql/lseg.go
@@ -44,6 +44,7 @@ func (v lsegToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..ba6aaf4 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -148,6 +148,7 @@ func (v numRangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v numRangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v numRangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v numRangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v numRangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v numRangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v numRangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v numRangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v numRangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v numRangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..9f43001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/point.go b/pgsql/point.go
index 142310f..62a036d 100644
--- a/pgsql/point.go
+++ b/pgsql/point.go
@@ -40,6 +40,7 @@ func (v pointToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 3171c1b..4d55649 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -43,6 +43,7 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..2479cb8 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -43,6 +43,7 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/uuid.go b/pgsql/uuid.go
index 1ed4368..88e990c 100644
--- a/pgsql/uuid.go
+++ b/pgsql/uuid.go
@@ -32,6 +32,7 @@ func (v uuidToByteArray16) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [16]byte{}
 		return nil
 	}
 
diff --git a/pgsql/varbit.go b/pgsql/varbit.go
index 7bdf237..a3904c4 100644
--- a/pgsql/varbit.go
+++ b/pgsql/varbit.go
@@ -54,6 +54,7 @@ func (v varBitToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
-- 
2.43.0


From d15a457c030b9637adcfbb7fb0dfde3d9f357c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 011/102] fix: read NULL, empty, quoted and escaped elements of
 arrays, and empty hstore values

Arrays of ranges, boxes and times panicked on or dropped NULL and 'empty' elements, text
starting with NULL was split, and the hstore parsers confused empty values with NULL.
Times are written with microseconds and the whole zone offset, and read back with it.
---
 pgsql/boxarr.go         |   3 +
 pgsql/convert_util.go   | 314 +++++++++++++++-------------------------
 pgsql/datearr.go        |   4 +
 pgsql/daterangearr.go   |   2 +-
 pgsql/int4rangearr.go   |  24 +--
 pgsql/int8rangearr.go   |  24 +--
 pgsql/numrangearr.go    |  24 +--
 pgsql/time.go           |  10 +-
 pgsql/timearr.go        |   4 +
 pgsql/timestamparr.go   |   4 +-
 pgsql/timestamptzarr.go |   4 +-
 pgsql/timetz.go         |  10 +-
 pgsql/timetzarr.go      |   6 +-
 pgsql/tsrange.go        |  10 +-
 pgsql/tsrangearr.go     |  20 ++-
 pgsql/tstzrange.go      |  10 +-
 pgsql/tstzrangearr.go   |  20 ++-
 17 files changed, 210 insertions(+), 283 deletions(-)

diff --git a/pgsql/boxarr.go b/pgsql/boxarr.go
index 04587f1..9f541a9 100644
--- a/pgsql/boxarr.go
+++ b/pgsql/boxarr.go
@@ -66,6 +66,9 @@ func (v boxArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	boxes := make([][2][2]float64, n)
 	for i := 0; i < n; i++ {
 		j := i * 4
+		if elems[j] == nil {
+			continue // NULL
+		}
 
 		x1, err := strconv.ParseFloat(string(elems[j]), 64)
 		if err != nil {
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 9089379..0d5f6ef 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -10,10 +10,10 @@ import (
 
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -32,35 +32,27 @@ func srcbytes(src interface{}) ([]byte, error) {
 
 var (
 	errNotOneByte = errors.New("pgsql: value is not a single byte")
+	errNotUUID    = errors.New("pgsql: value is not a uuid")
 	errNotOneChar = errors.New("pgsql: value is not a single character")
 )
 
 func pgparsehstore(a []byte) (out [][2][]byte) {
-	if len(a) == 0 {
-		return out // nothing to do if empty
-	}
-
 	var (
 		idx  uint8     // pair index 0=key 1=val
 		pair [2][]byte // current pair
 	)
 
 	for i := 0; i < len(a); i++ {
-		if a[i] == '"' { // start of key or value?
-			for j := i + 1; j < len(a); j++ {
-				if a[j] == '\\' {
-					j++ // skip escaped char
-					pair[idx] = append(pair[idx], a[j])
-					continue
-				}
-
-				if a[j] == '"' { // end of key or value?
-					i = j
-					break
+		switch a[i] {
+		case '"': // start of key or value
+			elem := []byte{}
+			for i++; i < len(a) && a[i] != '"'; i++ {
+				if a[i] == '\\' {
+					i++ // escaped char
 				}
-
-				pair[idx] = append(pair[idx], a[j])
+				elem = append(elem, a[i])
 			}
+			pair[idx] = elem
 
 			if idx == 1 { // is the pair done?
 				out = append(out, pair)
@@ -69,13 +61,11 @@ func pgparsehstore(a []byte) (out [][2][]byte) {
 
 			// flip the index
 			idx ^= 1
-		}
-
-		if a[i] == 'N' {
-			i += 4
-			idx = 0
+		case 'N': // NULL value
 			out = append(out, pair)
-			pair = [2][]byte{}
+			pair = [2][]byte{} // next pair
+			idx = 0
+			i += 3
 		}
 	}
 	return out
@@ -85,76 +75,74 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
 
-	var (
-		idx  uint8     // pair index 0=key 1=val
-		pair [2][]byte // current pair
-	)
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' { // start of hstore in array?
-			hstore := [][2][]byte{}
-
-			for j := i + 1; j < len(a); j++ {
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL hstore
+			out = append(out, nil)
+			continue
+		}
 
-				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
-					for k := j + 2; k < len(a); k++ {
-						if a[k] == '\\' {
-							if a[k+1] == '\\' { // escape??
-								k += 3 // skip escaped char
-								pair[idx] = append(pair[idx], a[k])
-								continue
-							}
-
-							if a[k+1] == '"' { // key or value ending quote?
-								j = k + 2
-								break
-							}
-						}
+		hstore := [][2][]byte{}
+		out = append(out, append(hstore, pgparsehstore(elem)...))
+	}
+	return out
+}
 
-						pair[idx] = append(pair[idx], a[k])
-					}
+func pgparsedate(a []byte) (time.Time, error) {
+	return time.ParseInLocation(dateLayout, string(a), time.UTC)
+}
 
-					if idx == 1 { // is the pair done?
-						hstore = append(hstore, pair)
-						pair = [2][]byte{} // next pair
-					}
+// pgTimeZoneLayout returns the layout with which the zone offset at the end
+// of the given time is written, either "-07", "-07:00", or "-07:00:00".
+func pgTimeZoneLayout(a []byte) string {
+	for i := len(a) - 1; i > 0; i-- {
+		if a[i] == '+' || a[i] == '-' {
+			switch len(a) - i {
+			case len("-07:00"):
+				return "-07:00"
+			case len("-07:00:00"):
+				return "-07:00:00"
+			}
+			break
+		}
+	}
+	return "-07"
+}
 
-					// flip the index
-					idx ^= 1
-				}
+func pgParseTimetz(a []byte) (time.Time, error) {
+	return time.Parse(timeLayout+pgTimeZoneLayout(a), string(a))
+}
 
-				// handle NULL value in pair
-				if a[j] == 'N' {
-					j += 4
-					idx = 0
-					hstore = append(hstore, pair)
-					pair = [2][]byte{} // next pair
-				}
+func pgParseTimestamp(a []byte) (time.Time, error) {
+	return time.ParseInLocation(timestampLayout, string(a), noZone)
+}
 
-				if a[j] == '"' { // end of hstore in array?
-					out = append(out, hstore)
-					i = j
-					break
-				}
-			}
-		}
+func pgParseTimestamptz(a []byte) (time.Time, error) {
+	return time.Parse(timestampLayout+pgTimeZoneLayout(a), string(a))
+}
 
-		// handle NULL hstore
-		if a[i] == 'N' {
-			out = append(out, nil)
-			i += 4
-		}
+// pgFormatTime formats the given time of day; "24:00:00" is represented by
+// the driver as the start of the next day.
+func pgFormatTime(t time.Time, layout string) string {
+	out := t.Format(layout)
+	if y, m, d := t.Date(); y == 0 && m == time.January && d == 2 {
+		out = "24" + out[2:]
 	}
 	return out
 }
 
-func pgparsedate(a []byte) (time.Time, error) {
-	return time.ParseInLocation(dateLayout, string(a), time.UTC)
+// pgTrimQuotes removes the surrounding double quotes, if there are any.
+func pgTrimQuotes(a []byte) []byte {
+	if len(a) > 1 && a[0] == '"' {
+		return a[1 : len(a)-1]
+	}
+	return a
 }
 
 func pgParseRange(a []byte) (out [2][]byte) {
+	if len(a) < 2 {
+		return out // NULL
+	}
 	a = a[1 : len(a)-1] // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
@@ -168,83 +156,34 @@ func pgParseRange(a []byte) (out [2][]byte) {
 	return out
 }
 
-// Expected format: '{STRING [, ...]}' where STRING is a double quoted string.
-func pgParseQuotedStringArray(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop curly braces
-
-mainloop:
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' { // start of string
-			for j := i + 1; j < len(a); j++ {
-				if a[j] == '\\' {
-					j++ // skip escaped char
-					continue
-				}
-
-				if a[j] == '"' { // end of string
-					out = append(out, a[i+1:j])
-					i = j + 1
-					continue mainloop
-				}
-			}
-		}
-
-		if a[i] == 'N' { // NULL?
-			out = append(out, []byte(nil))
-			i += 4
-		}
-	}
-
-	return out
-}
-
 // Expected format: '{STRING [, ...]}' where STRING is either an unquoted or a double quoted string.
 func pgParseStringArray(a []byte) (out [][]byte) {
 	a = a[1 : len(a)-1] // drop curly braces
 
-mainloop:
 	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case ',': // element separator?
-			continue mainloop
-		case '"': // start of double quoted string
+		if a[i] == '"' { // double quoted string
 			str := []byte{}
-			for j := i + 1; j < len(a); j++ {
-				if a[j] == '\\' { // escape sequence
-					str = append(str, a[i+1:j]...)
-					i = j
-					j++
-					continue
-				}
-
-				if a[j] == '"' { // end of string
-					str = append(str, a[i+1:j]...)
-					out = append(out, str)
-					i = j
-					continue mainloop
-				}
-			}
-		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, []byte(nil))
-				i = i + 3
-				continue mainloop
-			}
-			fallthrough
-		default: // start of unquoted string
-			var j int
-			for j = i + 1; j < len(a); j++ {
-				if a[j] == ',' { // end of string
-					out = append(out, a[i:j])
-					i = j
-					continue mainloop
+			for i++; i < len(a) && a[i] != '"'; i++ {
+				if a[i] == '\\' {
+					i++ // escaped char
 				}
+				str = append(str, a[i])
 			}
+			out = append(out, str)
+			i++ // element separator
+			continue
+		}
 
-			// end of the last element
+		j := i // unquoted string
+		for j < len(a) && a[j] != ',' {
+			j++
+		}
+		if string(a[i:j]) == `NULL` {
+			out = append(out, []byte(nil))
+		} else {
 			out = append(out, a[i:j])
-			i = j
 		}
+		i = j
 	}
 
 	return out
@@ -533,25 +472,19 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 		return out // nothing to do if empty "{}"
 	}
 
-	a = a[2 : len(a)-2] // drop the first "{(" and last ")}"
+	a = a[1 : len(a)-1] // drop curly braces
 
-	n := 0 // start of next elem
-	for i := 0; i < len(a); i++ {
-		if a[i] == ',' {
-			out = append(out, a[n:i])
-			n = i + 1
+	n := 0 // start of next box
+	for i := 0; i <= len(a); i++ {
+		if i < len(a) && a[i] != ';' {
+			continue
 		}
-
-		if a[i] == ')' {
-			out = append(out, a[n:i])
-			i += 2 // skip over ",(" or ";("
-			n = i + 1
+		if box := a[n:i]; string(box) == `NULL` {
+			out = append(out, nil, nil, nil, nil)
+		} else {
+			out = append(out, pgParseBox(box)...)
 		}
-	}
-
-	// append the last element
-	if n > 0 {
-		out = append(out, a[n:])
+		n = i + 1
 	}
 	return out
 }
@@ -575,11 +508,15 @@ func pgParseCommaArray(a []byte) (out [][]byte) {
 	return out
 }
 
-// Expected format: 'E[ ...]' (space separated list of elements).
+// Expected format: 'E[ ...]' (space separated list of elements, which may be single quoted).
 func pgParseVector(a []byte) (out [][]byte) {
 	var j int
+	var quoted bool
 	for i := 0; i < len(a); i++ {
-		if a[i] == ' ' {
+		if a[i] == '\'' {
+			quoted = !quoted
+		}
+		if a[i] == ' ' && !quoted {
 			out = append(out, a[j:i])
 			j = i + 1
 		}
@@ -596,49 +533,24 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
-
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
-				}
-			}
 
-			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
-		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
-			}
-			out = append(out, [][]byte{a[k:j]})
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL element
+			out = append(out, [][]byte(nil))
+			continue
 		}
-	}
 
+		vector := [][]byte{}
+		out = append(out, append(vector, pgParseVector(elem)...))
+	}
 	return out
 }
 
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
+	if len(data) != 36 {
+		return arr, errNotUUID
+	}
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
 		return arr, err
 	}
diff --git a/pgsql/datearr.go b/pgsql/datearr.go
index 29e27cd..987d848 100644
--- a/pgsql/datearr.go
+++ b/pgsql/datearr.go
@@ -54,6 +54,10 @@ func (v dateArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	dates := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) > 0 && elems[i][0] == 'N' { // NULL
+			continue
+		}
+
 		t, err := pgparsedate(elems[i])
 		if err != nil {
 			return err
diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index b8dac6f..2c580b1 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -63,7 +63,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]time.Time, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 41d8679..9690f43 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -164,7 +164,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 538e7e1..8096295 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -164,7 +164,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 9f43001..4b607f8 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -164,7 +164,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..b0a3578 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -22,11 +22,13 @@ type timeToString struct {
 func (v timeToString) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case time.Time:
-		*v.val = data.Format(timeLayout)
+		*v.val = pgFormatTime(data, timeLayout)
 	case []byte:
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
 	}
 	return nil
 }
@@ -38,11 +40,13 @@ type timeToByteSlice struct {
 func (v timeToByteSlice) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case time.Time:
-		*v.val = []byte(data.Format(timeLayout))
+		*v.val = []byte(pgFormatTime(data, timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timearr.go b/pgsql/timearr.go
index 0c0b959..372caff 100644
--- a/pgsql/timearr.go
+++ b/pgsql/timearr.go
@@ -57,6 +57,10 @@ func (v timeArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) > 0 && elems[i][0] == 'N' { // NULL
+			continue
+		}
+
 		t, err := time.Parse(timeLayout, string(elems[i]))
 		if err != nil {
 			return err
diff --git a/pgsql/timestamparr.go b/pgsql/timestamparr.go
index 287ea0d..3d37d10 100644
--- a/pgsql/timestamparr.go
+++ b/pgsql/timestamparr.go
@@ -64,8 +64,8 @@ func (v timestampArrayToTimeSlice) Scan(src interface{}) error {
 			continue
 		}
 
-		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.ParseInLocation(timestampLayout, string(ts), noZone)
+		ts = pgTrimQuotes(ts)
+		t, err := pgParseTimestamp(ts)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..5456bb7 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -65,8 +65,8 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 			continue
 		}
 
-		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		ts = pgTrimQuotes(ts)
+		t, err := pgParseTimestamptz(ts)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..756e8f2 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -22,11 +22,13 @@ type timetzToString struct {
 func (v timetzToString) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case time.Time:
-		*v.val = data.Format(timetzLayout)
+		*v.val = pgFormatTime(data, timetzLayout)
 	case []byte:
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
 	}
 	return nil
 }
@@ -38,11 +40,13 @@ type timetzToByteSlice struct {
 func (v timetzToByteSlice) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case time.Time:
-		*v.val = []byte(data.Format(timetzLayout))
+		*v.val = []byte(pgFormatTime(data, timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..74e51aa 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,11 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		if len(elems[i]) > 0 && elems[i][0] == 'N' { // NULL
+			continue
+		}
+
+		t, err := pgParseTimetz(elems[i])
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 4d55649..6c9ce9c 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -50,16 +50,14 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	var lo, hi time.Time
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1]
-		if lo, err = time.Parse(timestampLayout, string(s)); err != nil {
+		s := pgTrimQuotes(elems[0])
+		if lo, err = pgParseTimestamp(s); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1]
-		if hi, err = time.Parse(timestampLayout, string(s)); err != nil {
+		s := pgTrimQuotes(elems[1])
+		if hi, err = pgParseTimestamp(s); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tsrangearr.go b/pgsql/tsrangearr.go
index b6312fc..4865bcf 100644
--- a/pgsql/tsrangearr.go
+++ b/pgsql/tsrangearr.go
@@ -59,23 +59,21 @@ func (v tsRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			if t0, err = pgParseTimestamp(pgTrimQuotes(a[0])); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			if t1, err = pgParseTimestamp(pgTrimQuotes(a[1])); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 2479cb8..6fb1d44 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -50,16 +50,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	var lo, hi time.Time
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		s := pgTrimQuotes(elems[0])
+		if lo, err = pgParseTimestamptz(s); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		s := pgTrimQuotes(elems[1])
+		if hi, err = pgParseTimestamptz(s); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..e477f39 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -59,23 +59,21 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			if t0, err = pgParseTimestamptz(pgTrimQuotes(a[0])); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			if t1, err = pgParseTimestamptz(pgTrimQuotes(a[1])); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
-- 
2.43.0


From c7bb3d452eb7d4ef9ff948f7b6f66749647e0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 012/102] fix: escape text search and empty vector elements,
 keep fractions and range checks

tsquery[] and tsvector[] elements were not quoted, int2vector[] could not hold empty
vectors, numrange bounds were truncated to integers, numeric[] elements wrapped around,
JSON and XML ignored text sources and merged into the previous value, dates outside the
driver's range became zero, and AnyToEmptyInterface retained the driver's buffer.
---
 pgsql/any.go           |   4 ++
 pgsql/convert_util.go  |  16 +++++
 pgsql/date.go          |  41 +++++++++--
 pgsql/int2vectorarr.go | 156 +++++++++++++++++++++++++++++++++++++++++
 pgsql/int8arr.go       |   2 +-
 pgsql/int8rangearr.go  |   4 +-
 pgsql/json.go          |  12 +++-
 pgsql/numericarr.go    |  12 ++--
 pgsql/numrange.go      |  24 +++----
 pgsql/numrangearr.go   |  24 +++----
 pgsql/tsqueryarr.go    |  70 +++---------------
 pgsql/tsvectorarr.go   | 114 ++++--------------------------
 pgsql/uuidarr.go       |   8 +++
 pgsql/varbitarr.go     |   4 ++
 pgsql/xml.go           |  12 +++-
 15 files changed, 297 insertions(+), 206 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..a81355b 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,10 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if b, ok := src.([]byte); ok {
+		// the driver's buffer must not be retained
+		src = append([]byte{}, b...)
+	}
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 0d5f6ef..649a68d 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,7 +3,9 @@ package pgsql
 import (
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"net"
+	"reflect"
 	"strconv"
 	"time"
 )
@@ -92,6 +94,13 @@ func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
 
+func pgFormatDate(t time.Time) string {
+	if y, m, d := t.Date(); y < 1 {
+		return fmt.Sprintf("%04d-%02d-%02d BC", 1-y, m, d)
+	}
+	return t.Format(dateLayout)
+}
+
 // pgTimeZoneLayout returns the layout with which the zone offset at the end
 // of the given time is written, either "-07", "-07:00", or "-07:00:00".
 func pgTimeZoneLayout(a []byte) string {
@@ -683,3 +692,10 @@ func pgParseInet(str string) (net.IPNet, error) {
 	}
 	return *ipnet, nil
 }
+
+// pgReset sets the value that val points to, if any, to its zero value.
+func pgReset(val interface{}) {
+	if rv := reflect.ValueOf(val); rv.Kind() == reflect.Ptr && !rv.IsNil() {
+		rv.Elem().Set(reflect.Zero(rv.Type().Elem()))
+	}
+}
diff --git a/pgsql/date.go b/pgsql/date.go
index 228712c..643908a 100644
--- a/pgsql/date.go
+++ b/pgsql/date.go
@@ -27,9 +27,23 @@ type dateToTime struct {
 func (v dateToTime) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
 		*v.val = t.In(time.UTC)
-	} else {
+		return nil
+	}
+
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if data == nil {
 		*v.val = time.Time{}
+		return nil
+	}
+
+	t, err := pgparsedate(data)
+	if err != nil {
+		return err
 	}
+
+	*v.val = t
 	return nil
 }
 
@@ -39,10 +53,16 @@ type dateToString struct {
 
 func (v dateToString) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
-		*v.val = t.Format(dateLayout)
-	} else {
-		*v.val = ""
+		*v.val = pgFormatDate(t)
+		return nil
 	}
+
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
+	}
+
+	*v.val = string(data)
 	return nil
 }
 
@@ -52,9 +72,18 @@ type dateToByteSlice struct {
 
 func (v dateToByteSlice) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
-		*v.val = []byte(t.Format(dateLayout))
-	} else {
+		*v.val = []byte(pgFormatDate(t))
+		return nil
+	}
+
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if data == nil {
 		*v.val = nil
+		return nil
 	}
+
+	*v.val = append([]byte{}, data...)
 	return nil
 }
diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..22152cb 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -140,6 +140,15 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ints := range v.val {
+		if len(ints) == 0 {
+			if ints == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i := range ints {
 			out = strconv.AppendInt(out, int64(i), 10)
@@ -169,6 +178,10 @@ func (v int2VectorArrayToIntSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	intss := make([][]int, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		ints := make([]int, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -198,6 +211,15 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int8s := range v.val {
+		if len(int8s) == 0 {
+			if int8s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i8 := range int8s {
 			out = strconv.AppendInt(out, int64(i8), 10)
@@ -227,6 +249,10 @@ func (v int2VectorArrayToInt8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int8ss := make([][]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		int8s := make([]int8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 8)
@@ -256,6 +282,15 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int16s := range v.val {
+		if len(int16s) == 0 {
+			if int16s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i16 := range int16s {
 			out = strconv.AppendInt(out, int64(i16), 10)
@@ -285,6 +320,10 @@ func (v int2VectorArrayToInt16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int16ss := make([][]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		int16s := make([]int16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -314,6 +353,15 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int32s := range v.val {
+		if len(int32s) == 0 {
+			if int32s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i32 := range int32s {
 			out = strconv.AppendInt(out, int64(i32), 10)
@@ -343,6 +391,10 @@ func (v int2VectorArrayToInt32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int32ss := make([][]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		int32s := make([]int32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -372,6 +424,15 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int64s := range v.val {
+		if len(int64s) == 0 {
+			if int64s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i64 := range int64s {
 			out = strconv.AppendInt(out, i64, 10)
@@ -401,6 +462,10 @@ func (v int2VectorArrayToInt64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int64ss := make([][]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		int64s := make([]int64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -430,6 +495,15 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uints := range v.val {
+		if len(uints) == 0 {
+			if uints == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u := range uints {
 			out = strconv.AppendUint(out, uint64(u), 10)
@@ -459,6 +533,10 @@ func (v int2VectorArrayToUintSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uintss := make([][]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		uints := make([]uint, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -488,6 +566,15 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint8s := range v.val {
+		if len(uint8s) == 0 {
+			if uint8s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u8 := range uint8s {
 			out = strconv.AppendUint(out, uint64(u8), 10)
@@ -517,6 +604,10 @@ func (v int2VectorArrayToUint8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint8ss := make([][]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		uint8s := make([]uint8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 8)
@@ -546,6 +637,15 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint16s := range v.val {
+		if len(uint16s) == 0 {
+			if uint16s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u16 := range uint16s {
 			out = strconv.AppendUint(out, uint64(u16), 10)
@@ -575,6 +675,10 @@ func (v int2VectorArrayToUint16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint16ss := make([][]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		uint16s := make([]uint16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -604,6 +708,15 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint32s := range v.val {
+		if len(uint32s) == 0 {
+			if uint32s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u32 := range uint32s {
 			out = strconv.AppendUint(out, uint64(u32), 10)
@@ -633,6 +746,10 @@ func (v int2VectorArrayToUint32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint32ss := make([][]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		uint32s := make([]uint32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -662,6 +779,15 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint64s := range v.val {
+		if len(uint64s) == 0 {
+			if uint64s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u64 := range uint64s {
 			out = strconv.AppendUint(out, u64, 10)
@@ -691,6 +817,10 @@ func (v int2VectorArrayToUint64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint64ss := make([][]uint64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		uint64s := make([]uint64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -720,6 +850,15 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float32s := range v.val {
+		if len(float32s) == 0 {
+			if float32s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f32 := range float32s {
 			out = strconv.AppendInt(out, int64(f32), 10)
@@ -749,6 +888,10 @@ func (v int2VectorArrayToFloat32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float32ss := make([][]float32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		float32s := make([]float32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -778,6 +921,15 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float64s := range v.val {
+		if len(float64s) == 0 {
+			if float64s == nil {
+				out = append(out, `NULL,`...)
+			} else {
+				out = append(out, `"",`...)
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f64 := range float64s {
 			out = strconv.AppendInt(out, int64(f64), 10)
@@ -807,6 +959,10 @@ func (v int2VectorArrayToFloat64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float64ss := make([][]float64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue // NULL
+		}
+
 		float64s := make([]float64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 8096295..d75c346 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -801,12 +801,12 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		var lo, hi int64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
 				return err
 			}
 		}
diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..d2a5288 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -28,8 +28,14 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
-	return nil
+
+	pgReset(j.val)
+	if data == nil {
+		return nil
+	}
+	return json.Unmarshal(data, j.val)
 }
diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index ba6aaf4..d131579 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -572,9 +572,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -592,15 +592,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -616,9 +616,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, v.val[0], 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, v.val[1], 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -636,20 +636,20 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
 
-	v.val[0] = float64(lo)
-	v.val[1] = float64(hi)
+	v.val[0] = lo
+	v.val[1] = hi
 	return nil
 }
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 4b607f8..91d82a2 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, a[0], 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, a[1], 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,21 +861,21 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
 
-		ranges[i][0] = float64(lo)
-		ranges[i][1] = float64(hi)
+		ranges[i][0] = lo
+		ranges[i][1] = hi
 	}
 
 	*v.val = ranges
diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..3cc010c 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,13 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
+		out = pgAppendQuote1(out, []byte(v.val[i]))
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +80,17 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
-		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+			out = append(out, `NULL,`...)
+			continue
 		}
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, v.val[i])
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +110,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..0a13e72 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -1,8 +1,10 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
+	"strings"
 )
 
 // TSVectorArrayFromStringSliceSlice returns a driver.Valuer that produces a PostgreSQL tsvector[] from the given Go [][]string.
@@ -36,63 +38,17 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
+			out = append(out, `NULL,`...)
 			continue
 		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, []byte(strings.Join(v.val[i], " ")))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +98,17 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
+			out = append(out, `NULL,`...)
 			continue
 		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, bytes.Join(v.val[i], []byte(" ")))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..5766bb7 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -82,6 +82,10 @@ func (v uuidArrayToByteArray16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	uuids := make([][16]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+			continue
+		}
+
 		uuid, err := pgParseUUID(elems[i])
 		if err != nil {
 			return err
@@ -143,6 +147,10 @@ func (v uuidArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+			continue
+		}
+
 		strings[i] = string(elems[i])
 	}
 
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..47aa3b0 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -296,6 +296,10 @@ func (v varBitArrayToStringSlice) Scan(src interface{}) error {
 			continue
 		}
 
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+			continue
+		}
+
 		strings[i] = string(elems[i])
 	}
 
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..9550422 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -21,10 +21,16 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
-	return nil
+
+	pgReset(x.val)
+	if data == nil {
+		return nil
+	}
+	return xml.Unmarshal(data, x.val)
 }
 
 func (x xmltype) Value() (driver.Value, error) {
-- 
2.43.0


From 7d93922b1afdca182dc79b5e56f010772bfb00d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 013/102] fix: keep NOT and SYMMETRIC of between predicates in
 the generated query

---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..e2d6d6e 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1410,6 +1410,10 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
 	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Not = (cond.Predicate == analysis.NotBetween || cond.Predicate == analysis.NotBetweenSym)
+	if cond.Predicate == analysis.IsBetweenSym || cond.Predicate == analysis.NotBetweenSym {
+		predicate.Sym = SQL.SYMMETRIC
+	}
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-- 
2.43.0


From 40a13f6f1114637e0796a8130f7c75e627722556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 014/102] fix: apply the default limit and offset before a
 query with IN lists copies its arguments

---
 internal/generator/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index e2d6d6e..58a998f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -191,6 +191,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	buildQuerySQLString(g, qs)
 	buildQueryStringDecl(g, qs)
 
+	buildQueryLimitOffsetFallback(g, qs)
 	if qs.IsInsertOrUpdateSlice() {
 		buildQueryStringForSliceInsertOrUpdate(g, qs)
 	} else if len(g.inputSliceArgs) > 0 {
@@ -202,7 +203,6 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	buildQueryFilterParams(g, qs)
-	buildQueryLimitOffsetFallback(g, qs)
 
 	if qs.IsWithoutOutput() {
 		buildQueryCallExec(g, qs)
@@ -1645,6 +1645,10 @@ func buildQueryStringForSliceArgs(g *generator, qs *analysis.QueryStruct) {
 		ifaceSliceType = GO.Ident{"[]interface{}"}
 	)
 
+	// the fallback values must be set before the fields are copied to params
+	stmtList = append(stmtList, g.queryLimitAndOffsetFallback)
+	g.queryLimitAndOffsetFallback = GO.StmtList{GO.NoOp{}}
+
 	// produce:
 	//	params := make([]interface{}, nstatic + len1 [ + len<i> ])
 	binExpr := GO.BinaryExpr{Op: GO.BinaryAdd}
-- 
2.43.0


From 9cb2d45c62de49266259cf6723cf7cbd5de790ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 015/102] fix: put order, limit and offset of a select after
 its filter and pass their parameters

---
 internal/generator/generator.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 58a998f..8b11fe1 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1037,6 +1037,15 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Join != nil {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
+	if qs.Filter != nil {
+		// these follow what the filter adds
+		if len(g.orderClause.List) > 0 || g.limitClause.Value != nil || g.offsetClause.Value != nil {
+			g.sqlTailNode = SQL.NodeList{g.orderClause, g.limitClause, g.offsetClause}
+		}
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Order = g.orderClause
 	stmt.Limit = g.limitClause
@@ -1110,7 +1119,8 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
 		// then, by default, generate a `LIMIT 1` clause.
-		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter {
+		// With a filter the limit, if any, is the filter's.
+		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter && qs.Filter == nil {
 			g.limitClause.Value = SQL.LimitInt(1)
 		}
 		return
@@ -1753,7 +1763,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || (qs.Kind != analysis.QueryKindUpdate && len(g.inputArgs) == 0) {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From c4dc3210a61cad9c29065b94ded4d657259a4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 016/102] fix: keep order, limit and offset of an exists query
 with a filter

---
 internal/generator/generator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8b11fe1..705b374 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1104,6 +1104,12 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 	} else {
 		stmt.Open = true
 		g.closeFilter = true
+
+		// these follow what the filter adds
+		order, limit, offset := g.orderClause, g.limitClause, g.offsetClause
+		if len(order.List) > 0 || limit.Value != nil || offset.Value != nil {
+			g.sqlTailNode = SQL.NodeList{order, limit, offset}
+		}
 	}
 
 	g.sqlMainNode = stmt
@@ -1735,7 +1741,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 	stmtList = append(stmtList, assign)
 
 	rhsExpr := GO.ExprNode(filterStringVar)
-	if g.closeFilter {
+	if g.closeFilter && g.sqlTailNode == nil {
 		// produce:
 		//	filterString + `)`
 		binAdd := GO.BinaryExpr{Op: GO.BinaryAdd}
@@ -1756,6 +1762,15 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 		assign.Lhs = queryStringVar
 		assign.Rhs = GO.RawStringNode{Prefix: " ", N: g.sqlTailNode, Comment: &GO.LineComment{" `"}}
 		stmtList = append(stmtList, assign)
+
+		if g.closeFilter {
+			// produce:
+			//	queryString += `)`
+			assign := GO.AssignStmt{Token: GO.AssignAdd}
+			assign.Lhs = queryStringVar
+			assign.Rhs = GO.RawStringLit(`)`)
+			stmtList = append(stmtList, assign)
+		}
 	}
 
 	stmtList = append(stmtList, GO.NL{})
-- 
2.43.0


From d6d28934175af31825fb5e1fae3e946f53a52246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 017/102] fix: leave order, limit and offset out of count
 queries

---
 internal/generator/generator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 705b374..bdc06e8 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -421,7 +421,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryInputLimitField
 func buildQueryInputLimitField(g *generator, qs *analysis.QueryStruct) {
-	if qs.Limit == nil || len(qs.Limit.Name) == 0 {
+	if qs.Limit == nil || len(qs.Limit.Name) == 0 || qs.Kind == analysis.QueryKindSelectCount {
 		return
 	}
 
@@ -431,7 +431,7 @@ func buildQueryInputLimitField(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryInputOffsetField
 func buildQueryInputOffsetField(g *generator, qs *analysis.QueryStruct) {
-	if qs.Offset == nil || len(qs.Offset.Name) == 0 {
+	if qs.Offset == nil || len(qs.Offset.Name) == 0 || qs.Kind == analysis.QueryKindSelectCount {
 		return
 	}
 
@@ -1068,7 +1068,8 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
-// buildSQLSelectCountStatement builds an SQL.SelectCountStatement.
+// buildSQLSelectCountStatement builds an SQL.SelectCountStatement. The order,
+// limit and offset of the query do not apply to the one row with the count.
 func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.SelectCountStatement{}
 	stmt.Table = makeRelIdent(qs.Rel.Id)
@@ -1079,8 +1080,6 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 
 	if qs.Filter == nil {
 		stmt.Where = g.whereClause
-		stmt.Order = g.orderClause
-		stmt.Offset = g.offsetClause
 	}
 
 	g.sqlMainNode = stmt
@@ -1121,6 +1120,9 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 
 // buildSQLLimitClause builds an SQL.LimitClause.
 func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
+	if qs.Kind == analysis.QueryKindSelectCount {
+		return
+	}
 	if qs.Limit == nil {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
@@ -1141,7 +1143,7 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 
 // buildSQLOffsetClause builds an SQL.OffsetClause.
 func buildSQLOffsetClause(g *generator, qs *analysis.QueryStruct) {
-	if qs.Offset == nil {
+	if qs.Offset == nil || qs.Kind == analysis.QueryKindSelectCount {
 		return
 	}
 
-- 
2.43.0


From bbd82cdac4ad45741b035614aab47bbe1d270de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 018/102] fix: initialize nested pointers whose concatenated
 field names are equal

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index bdc06e8..020fa66 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -530,7 +530,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += node.Name + "."
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From 1be89304ab52b6f645b051d2a4734a642bd623b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 019/102] fix: qualify the columns read from an unaliased
 relation that is joined with others

---
 internal/generator/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 020fa66..24bb5e1 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -580,7 +580,12 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeColRef(fr.ColIdent)
+		ref := makeColRef(fr.ColIdent)
+		if qs.Join != nil && len(ref.Qual) == 0 {
+			// the joined relations may have a column of the same name
+			ref.Qual = qs.Rel.Id.Name
+		}
+		expr = ref
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
-- 
2.43.0


From 0c4158dfc009cd81e3121092d8fb5eacadb85f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 020/102] fix: put the RETURNING clause of a DELETE after the
 filter's WHERE clause

---
 internal/generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 24bb5e1..0b333aa 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1068,6 +1068,13 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Using.List = append(stmt.Using.List, g.tableExprSlice()...)
 	}
 
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// this follows what the filter adds
+		g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
-- 
2.43.0


From be708ba64039fc3906a8c1c28bc5254f9339f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 021/102] fix: set columns to DEFAULT in slice updates outside
 of the VALUES list

---
 internal/generator/generator.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0b333aa..97588e2 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -111,6 +111,9 @@ type generator struct {
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
 	inputCols      SQL.NameGroup
 	inputColsPKeys SQL.NameGroup
+	// The list of target columns whose values are listed in the FROM (VALUES ...)
+	// of a slice UPDATE.
+	inputColsValues SQL.NameGroup
 	// The list of input value expressions to be assigned to the target
 	// columns by the sql query (INSERT|UPDATE).
 	inputVals      SQL.ValueExprList
@@ -297,7 +300,12 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
-			g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			if qs.IsUpdateSlice() {
+				// DEFAULT is allowed in SET but not in FROM (VALUES ...)
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+			} else {
+				g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			}
 			continue
 		}
 
@@ -318,6 +326,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 				expr = cast
 			}
 			g.inputVals = append(g.inputVals, expr)
+			g.inputColsValues = append(g.inputColsValues, col.Name)
 			continue
 		}
 
@@ -1013,7 +1022,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		columns := append(g.inputColsValues, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
-- 
2.43.0


From 10560d2d7770924fc88f3235736f81573ff123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 022/102] fix: qualify the columns of an unaliased relation in
 slice updates

---
 internal/generator/generator.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 97588e2..a9c3f45 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -590,9 +590,8 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
 		ref := makeColRef(fr.ColIdent)
-		if qs.Join != nil && len(ref.Qual) == 0 {
-			// the joined relations may have a column of the same name
-			ref.Qual = qs.Rel.Id.Name
+		if qs.Join != nil || qs.IsUpdateSlice() {
+			ref = makeColRefQualified(fr.ColIdent, qs.Rel.Id)
 		}
 		expr = ref
 		if fr.NeedsCOALESCE() {
@@ -1231,6 +1230,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
+				predicate.LPredicand = makeColRefQualified(fw.ColIdent, qs.Rel.Id)
 				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
@@ -2336,6 +2336,16 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	}
 }
 
+// makeColRefQualified makes a reference to a column of the given relation that
+// can be used where another relation may have a column of the same name.
+func makeColRefQualified(id analysis.ColIdent, rel analysis.RelIdent) SQL.ColumnReference {
+	ref := makeColRef(id)
+	if len(ref.Qual) == 0 {
+		ref.Qual = rel.Name
+	}
+	return ref
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From d57bed97779e0a98eea9f17f132bafb08fa50fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 023/102] fix: return the rows of slice updates that have a
 result

---
 internal/generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a9c3f45..277e1f6 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1024,6 +1024,9 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns := append(g.inputColsValues, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		if qs.Result != nil {
+			tail.Returning = SQL.ReturningClause(g.outputVals)
+		}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From a6073be8f1c81a8c324519cc2197a3821c15424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 024/102] fix: keep the alias of the VALUES list apart from the
 relation's in slice updates

---
 internal/generator/generator.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 277e1f6..db2860d 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -312,7 +312,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 		if qs.IsUpdateSlice() {
 			col := SQL.ColumnIdent{}
 			col.Name = SQL.Name(fw.Column.Name)
-			col.Qual = "x"
+			col.Qual = valuesListAlias(qs)
 			g.updateCols = append(g.updateCols, col)
 
 			var expr SQL.ValueExpr
@@ -1022,7 +1022,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
 		columns := append(g.inputColsValues, g.inputColsPKeys...)
-		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
+		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		if qs.Result != nil {
 			tail.Returning = SQL.ReturningClause(g.outputVals)
@@ -1234,7 +1234,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 
 			if qs.Rel.Type.IsSlice {
 				predicate.LPredicand = makeColRefQualified(fw.ColIdent, qs.Rel.Id)
-				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
+				col := SQL.ColumnIdent{Qual: valuesListAlias(qs), Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
 
@@ -2368,6 +2368,14 @@ func isSliceUpdate(qs *analysis.QueryStruct) bool {
 	return qs.Kind == analysis.QueryKindUpdate && qs.Rel.Type.IsSlice
 }
 
+// valuesListAlias returns the alias of the FROM (VALUES ...) list of a slice update.
+func valuesListAlias(qs *analysis.QueryStruct) string {
+	if qs.Rel.Id.Alias == "x" || (len(qs.Rel.Id.Alias) == 0 && qs.Rel.Id.Name == "x") {
+		return "x_"
+	}
+	return "x"
+}
+
 // canUseDefault reports whether or not the SQL's DEFAULT marker should be
 // used to write a column.
 func canUseDefault(qs *analysis.QueryStruct, f *analysis.FieldInfo) bool {
-- 
2.43.0


From 31908954bdc148ad0757f7462dcb4d0dd1aadc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 025/102] fix: recognize promoted methods and interfaces as
 error handlers and after-scan hooks

---
 internal/typesutil/predicates.go | 35 +++++++++++++-------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..e08a670 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -257,29 +257,28 @@ func IsDirective(ident string, typ types.Type) bool {
 	return ok && st.NumFields() == 1 && st.Field(0).Name() == "_isdir"
 }
 
+// lookupMethod returns the signature of the named type's method with the given
+// name, whether it is declared by the type, promoted from an embedded field, or
+// belongs to an interface. The result is nil if there's no such method.
+func lookupMethod(named *types.Named, name string) *types.Signature {
+	obj, _, _ := types.LookupFieldOrMethod(named, true, nil, name)
+	if m, ok := obj.(*types.Func); ok {
+		return m.Type().(*types.Signature)
+	}
+	return nil
+}
+
 // ImplementsAfterScanner reports whether or not the given named type
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "AfterScan")
 	return sig != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0
 }
 
 // ImplementsErrorHandler reports whether or not the given named type
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "HandleError")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
@@ -290,13 +289,7 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // ImplementsErrorInfoHandler reports whether or not the given named type
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "HandleErrorInfo")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
-- 
2.43.0


From b385a98a7a649f40503d6b9a3c040a3471470015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 026/102] fix: recognize pointers to error handlers

---
 internal/analysis/analysis.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..a48d307 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2158,22 +2158,26 @@ func isBoolType(typ types.Type) bool {
 	return basic.Kind() == types.Bool
 }
 
+// handlerType returns the named type whose methods can be called on a field of
+// the given type, or nil if there's none.
+func handlerType(typ types.Type) *types.Named {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
+	named, _ := typ.(*types.Named)
+	return named
+}
+
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
-	if !ok {
-		return false
-	}
-	return typesutil.ImplementsErrorHandler(named)
+	named := handlerType(typ)
+	return named != nil && typesutil.ImplementsErrorHandler(named)
 }
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
-	if !ok {
-		return false
-	}
-	return typesutil.ImplementsErrorInfoHandler(named)
+	named := handlerType(typ)
+	return named != nil && typesutil.ImplementsErrorInfoHandler(named)
 }
 
 // isFilterType reports whether or not the given type is the gosql.Filter type.
-- 
2.43.0


From a5a8bda5757a0e1066efe9b34cfba20410eb1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 027/102] fix: do not call HandleErrorInfo without an error

---
 internal/generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index db2860d..d487b78 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -211,6 +211,9 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryCallExec(g, qs)
 		if qs.RowsAffected != nil {
 			buildQueryResultRowsAffected(g, qs)
+		} else if eh := qs.ErrorHandler; eh != nil && eh.IsInfo {
+			// HandleErrorInfo must not be called without an error
+			g.queryResultStmt = GO.StmtList{makeErrorIfStmt(g, qs), GO.ReturnStmt{GO.Ident{"nil"}}}
 		} else {
 			g.queryResultStmt = makeErrorReturnStmt(g, qs, GO.Ident{"err"})
 		}
-- 
2.43.0


From 591fe4c38f9dd3ff3863ff5e9a1fcb48e835e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 028/102] fix: reject repeated directives and fields of the
 same kind

---
 internal/analysis/analysis.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index a48d307..46c3fd7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1048,6 +1048,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
 
+	if a.query.Join != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
+
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1234,6 +1238,10 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OnConflict != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
+
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1557,6 +1565,9 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OrderBy != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	tags := tagutil.New(tag)["sql"]
 	if len(tags) == 0 {
@@ -1606,6 +1617,9 @@ func analyzeOverrideDirective(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Override != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	var kind OverridingKind
 	switch val := tolower(tagutil.New(tag).First("sql")); val {
@@ -1673,6 +1687,9 @@ func analyzeDefaultDirective(a *analysis, f *types.Var, tag string) error {
 	if a.query.Kind != QueryKindInsert && a.query.Kind != QueryKindUpdate {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Default != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1691,6 +1708,9 @@ func analyzeForceDirective(a *analysis, f *types.Var, tag string) error {
 		// TODO test
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Force != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1717,6 +1737,9 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Optional != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1740,6 +1763,10 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 // analyzeTextSearchDirective analyzes the given field and its tag as the gosql.TextSearch
 // directive and sets the result to the given analysis' filter.
 func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
+	if a.filter.TextSearch != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
+
 	tval := tagutil.New(tag).First("sql")
 	tval = strings.ToLower(strings.TrimSpace(tval))
 
-- 
2.43.0


From 1aaca072a601e1d6f0a70274899d7ab188ae6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 029/102] fix: do not panic on empty options in the sql tag

---
 internal/analysis/fieldmode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..e9122bd 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -30,6 +30,10 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 	}
 
 	for _, opt := range tag[1:] {
+		if len(opt) == 0 {
+			continue
+		}
+
 		////////////////////////////////////////////////////////////////
 		// handle deprecated field options
 		switch opt {
-- 
2.43.0


From 9bc476d66a7ac83bcc9ff3cc065a14ebe2783622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 030/102] fix: reject on conflict structs without an action

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..fb99a0b 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -67,6 +67,7 @@ const (
 	errOnConflictIndexColumnsNotUnique
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
+	errOnConflictActionMissing
 )
 
 type dbError struct {
@@ -577,6 +578,12 @@ On Conflict error templates
     - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
+{{ define "` + errOnConflictActionMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing on_conflict action directive."}}
+    The "{{R .Field.Name}}" struct field is missing an "action" directive.
+    - {{Wb "FIX:"}} add either the "{{W "gosql.Ignore"}}" or the "{{W "gosql.Update"}}" directive.
+{{ end }}
+
 {{ define "` + errOnConflictConstraintUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Constraint not found."}}
     The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" does not exist.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..bfa0626 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1021,6 +1021,8 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 //	   table and it MUST be a unique constraint.
 //	✅ If a gosql.Update directive was used in the OnConflict block, the columns
 //	   listed in the directive's tag MUST be present in the target table.
+//	✅ The OnConflict block MUST contain either the gosql.Ignore directive or
+//	   the gosql.Update directive.
 func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.OnConflict == nil {
 		return nil
@@ -1123,6 +1125,12 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		}
 	}
 
+	// check that the action is present
+	if qs.OnConflict.Ignore == nil && qs.OnConflict.Update == nil {
+		return c.dbError(dbError{Code: errOnConflictActionMissing,
+			Rel: relInfo{Relation: c.rel}}, qs.OnConflict)
+	}
+
 	c.res.Conflict = info
 	return nil
 }
-- 
2.43.0


From 3cae1c38299ab084afb8417b8895c59ae7efac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 031/102] fix: require the All directive for updates and
 deletes of all rows

---
 internal/postgres/errors.go   |  8 ++++++++
 internal/postgres/postgres.go | 21 +++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index fb99a0b..637ab6b 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -68,6 +68,8 @@ const (
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
 	errOnConflictActionMissing
+	// all-rows safeguard errors
+	errAllDirectiveMissing
 )
 
 type dbError struct {
@@ -596,6 +598,12 @@ On Conflict error templates
     - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
+{{ define "` + errAllDirectiveMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing \"gosql.All\" directive."}}
+    The query would be executed against all the rows of the target relation "{{R .Rel.Id.Name}}".
+    - {{Wb "FIX:"}} add a "{{W "where struct"}}", or a filter, to limit the affected rows, or add the "{{W "gosql.All"}}" directive.
+{{ end }}
+
 ` // `
 
 var error_templates = template.Must(template.New("t").Funcs(template.FuncMap{
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index bfa0626..636a537 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -263,6 +263,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
+		typeCheckQueryAllDirective,
 	}
 	for i := 0; i < len(checks); i++ {
 		if err := checks[i](c, qs); err != nil {
@@ -1135,6 +1136,26 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 	return nil
 }
 
+// typeCheckQueryAllDirective ensures that an update or delete query that is to
+// be executed against all the rows of the relation says so explicitly.
+//
+// CHECKLIST:
+//
+//	✅ A delete query without the gosql.All directive MUST have a where struct,
+//	   a using struct, or a filter.
+//	✅ An update query without the gosql.All directive MUST have a where struct,
+//	   a from struct, a filter, or at least one primary key field.
+func typeCheckQueryAllDirective(c *checker, qs *analysis.QueryStruct) error {
+	if qs.All != nil || qs.Where != nil || qs.Filter != nil || qs.Join != nil {
+		return nil
+	}
+	if qs.Kind == analysis.QueryKindDelete || (qs.Kind == analysis.QueryKindUpdate && len(c.res.PKeys) == 0) {
+		return c.dbError(dbError{Code: errAllDirectiveMissing,
+			Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckFieldRead checks if a value from the column that is associated
 // with the given field can be read into that field. If strict=false and there
 // is no column associated with the given field the check will be skipped.
-- 
2.43.0


From 627ab8660a8ae645aca49f27209859ac6d9d038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 032/102] fix: treat identity columns as having a default

---
 internal/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 636a537..8bb5149 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1863,7 +1863,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		, a.attname
 		, a.atttypmod
 		, a.attnotnull
-		, a.atthasdef
+		, (a.atthasdef OR a.attidentity <> '')
 		, COALESCE(i.indisprimary, false)
 		, a.attndims
 		, a.atttypid
-- 
2.43.0


From 37447445f5e965bbf7aaa4bb5ec07a087cac898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 033/102] fix: analyze the rel field of filters before the text
 search directive

---
 internal/analysis/analysis.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 46c3fd7..26588b8 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -158,6 +158,7 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 	a.filter = new(FilterStruct)
 	a.filter.TypeName = a.named.Obj().Name()
 
+	// Find and analyze the "rel" field.
 	for i := 0; i < structType.NumFields(); i++ {
 		fvar := structType.Field(i)
 		ftag := structType.Tag(i)
@@ -191,6 +192,15 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 			if a.filter.Rel.Type.IsIter {
 				return nil, a.error(errIllegalIteratorField, fvar, "", ftag, "", "")
 			}
+		}
+	}
+
+	// Analyze the rest of the filter struct's fields.
+	for i := 0; i < structType.NumFields(); i++ {
+		fvar := structType.Field(i)
+		ftag := structType.Tag(i)
+
+		if _, ok := tagutil.New(ftag)["rel"]; ok {
 			continue
 		}
 
-- 
2.43.0


From 7e6bc95053376b4aae0758f5a8bd1f261c3c02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 034/102] fix: reject from and using structs without a relation
 directive

---
 internal/analysis/analysis.go | 4 ++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 26588b8..1b3b903 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1101,6 +1101,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 
 	}
 
+	if fname != "join" && join.Relation == nil {
+		return a.error(errMissingRelationDirective, f, "", tag, "", "")
+	}
+
 	a.query.Join = join
 	a.info.FieldMap[a.query.Join] = FieldVar{Var: f, Tag: tag}
 	return nil
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..6ed985d 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -238,6 +238,7 @@ const (
 	errIllegalPredicateQuantifier
 	errUnknownColumnQualifier
 	errColumnFieldUnknown
+	errMissingRelationDirective
 )
 
 var error_template_string = `
@@ -430,6 +431,12 @@ var error_template_string = `
         - The {{Ci "gosql.Constraint"}} directive.
 {{ end }}
 
+{{ define "` + errMissingRelationDirective.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing \"gosql.Relation\" directive."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing the {{Ci "gosql.Relation"}} directive.
+    {{Wb "FIX:"}} Make sure that {{R .FieldName}} in {{Wb .TargetName}} has {{Wu "exactly one"}} {{Ci "gosql.Relation"}} directive.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From 1ee4c1afad9155817ffef7c717ddecca8fcc4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 035/102] fix: an empty where struct does not lift the all-rows
 safeguard

---
 internal/postgres/postgres.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 8bb5149..3503e7c 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1141,15 +1141,16 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 //
 // CHECKLIST:
 //
-//	✅ A delete query without the gosql.All directive MUST have a where struct,
+//	✅ A delete query without the gosql.All directive MUST have a non-empty where struct,
 //	   a using struct, or a filter.
-//	✅ An update query without the gosql.All directive MUST have a where struct,
+//	✅ An update query without the gosql.All directive MUST have a non-empty where struct,
 //	   a from struct, a filter, or at least one primary key field.
 func typeCheckQueryAllDirective(c *checker, qs *analysis.QueryStruct) error {
-	if qs.All != nil || qs.Where != nil || qs.Filter != nil || qs.Join != nil {
+	if qs.All != nil || qs.Filter != nil || qs.Join != nil || len(c.res.Where) > 0 {
 		return nil
 	}
-	if qs.Kind == analysis.QueryKindDelete || (qs.Kind == analysis.QueryKindUpdate && len(c.res.PKeys) == 0) {
+	hasKey := qs.IsUpdateWithPKeys() && len(c.res.PKeys) > 0
+	if qs.Kind == analysis.QueryKindDelete || (qs.Kind == analysis.QueryKindUpdate && !hasKey) {
 		return c.dbError(dbError{Code: errAllDirectiveMissing,
 			Rel: relInfo{Relation: c.rel}}, qs.Rel)
 	}
-- 
2.43.0


From 84dea758a08e441abcba32b9209aa146a4dc2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 036/102] fix: reject empty nested where structs

---
 internal/analysis/analysis.go | 4 ++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 1b3b903..908f7ec 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1026,6 +1026,10 @@ stackloop:
 		}
 
 		if loop.where != nil {
+			if len(loop.items) == 0 {
+				fv := a.info.FieldMap[loop.where]
+				return a.error(errEmptyNestedWhere, fv.Var, f.Name(), fv.Tag, "", "")
+			}
 			loop.where.Items = loop.items
 		}
 
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 6ed985d..3cd6e62 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -239,6 +239,7 @@ const (
 	errUnknownColumnQualifier
 	errColumnFieldUnknown
 	errMissingRelationDirective
+	errEmptyNestedWhere
 )
 
 var error_template_string = `
@@ -437,6 +438,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Make sure that {{R .FieldName}} in {{Wb .TargetName}} has {{Wu "exactly one"}} {{Ci "gosql.Relation"}} directive.
 {{ end }}
 
+{{ define "` + errEmptyNestedWhere.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Empty nested where struct."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}}.{{Wb .BlockName}} has no conditions.
+    {{Wb "FIX:"}} Add at least one condition to {{R .FieldName}}, or remove it.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From 5b2f175a1a03267044277eb6faed5bc77bd8a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 037/102] fix: report malformed file values of options also
 given by flag

---
 internal/config/types.go | 77 +++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..7ce436f 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -35,15 +35,15 @@ func (s *String) Set(value string) error {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (s *String) UnmarshalJSON(data []byte) error {
-	if !s.IsSet {
-		if len(data) == 0 || string(data) == `null` {
-			return nil
-		}
+	if len(data) == 0 || string(data) == `null` {
+		return nil
+	}
 
-		var value string
-		if err := json.Unmarshal(data, &value); err != nil {
-			return err
-		}
+	var value string
+	if err := json.Unmarshal(data, &value); err != nil {
+		return err
+	}
+	if !s.IsSet {
 		s.Value = value
 		s.IsSet = true
 	}
@@ -88,15 +88,15 @@ func (b *Bool) Set(value string) error {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (b *Bool) UnmarshalJSON(data []byte) error {
-	if !b.IsSet {
-		if len(data) == 0 || string(data) == `null` {
-			return nil
-		}
+	if len(data) == 0 || string(data) == `null` {
+		return nil
+	}
 
-		var value bool
-		if err := json.Unmarshal(data, &value); err != nil {
-			return err
-		}
+	var value bool
+	if err := json.Unmarshal(data, &value); err != nil {
+		return err
+	}
+	if !b.IsSet {
 		b.Value = value
 		b.IsSet = true
 	}
@@ -132,19 +132,17 @@ func (ss *StringSlice) Set(value string) error {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (ss *StringSlice) UnmarshalJSON(data []byte) error {
-	if !ss.IsSet {
-		if len(data) == 0 || string(data) == `null` {
-			return nil
-		}
+	if len(data) == 0 || string(data) == `null` {
+		return nil
+	}
 
-		var value []string
-		if err := json.Unmarshal(data, &value); err != nil {
-			return err
-		}
-		if len(value) > 0 {
-			ss.Value = value
-			ss.IsSet = true
-		}
+	var value []string
+	if err := json.Unmarshal(data, &value); err != nil {
+		return err
+	}
+	if !ss.IsSet && len(value) > 0 {
+		ss.Value = value
+		ss.IsSet = true
 	}
 	return nil
 }
@@ -196,16 +194,21 @@ func (t *GoType) Set(value string) error {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (t *GoType) UnmarshalJSON(data []byte) error {
-	if !t.IsSet {
-		if len(data) == 0 || string(data) == `null` {
-			return nil
-		}
+	if len(data) == 0 || string(data) == `null` {
+		return nil
+	}
 
-		var value string
-		if err := json.Unmarshal(data, &value); err != nil {
-			return err
-		}
-		return t.Set(value)
+	var value string
+	if err := json.Unmarshal(data, &value); err != nil {
+		return err
+	}
+
+	tt := *t
+	if err := tt.Set(value); err != nil {
+		return err
+	}
+	if !t.IsSet {
+		*t = tt
 	}
 	return nil
 }
-- 
2.43.0


From 5ec0082ec2fa0192215d887664086054e583818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 038/102] fix: the last argument type given decides whether it
 is a pointer

---
 internal/config/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/config/types.go b/internal/config/types.go
index 7ce436f..626b91a 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -182,6 +182,7 @@ func (t *GoType) Set(value string) error {
 		return fmt.Errorf("bad method argument type: %q", value)
 	} else {
 		t.PkgPath, t.Name = value[:i], value[i+1:]
+		t.IsPtr = false
 		if len(t.PkgPath) > 0 && t.PkgPath[0] == '*' {
 			t.PkgPath = t.PkgPath[1:]
 			t.IsPtr = true
-- 
2.43.0


From 59695b2cadae5aa3ea130e36ace6a9177e263171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 039/102] fix: report a config file with data after the
 configuration object

---
 internal/config/config.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..c89b8aa 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -184,13 +184,11 @@ func (c *Config) ParseFile() error {
 
 	// if explicitly set or found in project's root, unamrshal the config file
 	if ConfigFile != "" {
-		f, err := os.Open(ConfigFile)
+		data, err := os.ReadFile(ConfigFile)
 		if err != nil {
 			return err
 		}
-		defer f.Close()
-
-		if err := json.NewDecoder(f).Decode(c); err != nil {
+		if err := json.Unmarshal(data, c); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From c8b53e1aad8904b84032fcb5d5ab3db9322c9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 040/102] fix: accept argument types whose methods are promoted
 from embedded fields

---
 internal/typesutil/predicates.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index e08a670..f6e8ef9 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -314,16 +314,17 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
 func ImplementsGosqlConn(named *types.Named) bool {
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
+	// the method set includes methods promoted from embedded fields
+	mm := types.NewMethodSet(types.NewPointer(named))
+	if types.IsInterface(named) {
+		mm = types.NewMethodSet(named)
 	}
 
 	var hasExec, hasQuery, hasQueryRow bool
 	var hasExecContext, hasQueryContext, hasQueryRowContext bool
 
-	for i := 0; i < mm.NumMethods(); i++ {
-		m := mm.Method(i)
+	for i := 0; i < mm.Len(); i++ {
+		m := mm.At(i).Obj()
 		switch m.Name() {
 		case "Exec": // Exec(query string, args ...interface{}) (sql.Result, error)
 			sig := m.Type().(*types.Signature)
-- 
2.43.0


From 08e8c4062805dd144152af4305225b0c0c73efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 041/102] fix: reject pointers to interfaces as argument types

---
 internal/config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index c89b8aa..12f180a 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -386,7 +386,8 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 					return fmt.Errorf("bad method argument type: %q", t)
 				}
 
-				if !typesutil.ImplementsGosqlConn(named) {
+				// NOTE a pointer to an interface has no methods
+				if (t.IsPtr && types.IsInterface(named)) || !typesutil.ImplementsGosqlConn(named) {
 					return fmt.Errorf("bad method argument type: %q --"+
 						" does not implement the \"github.com/frk/gosql.Conn\" interface.", t)
 				}
-- 
2.43.0


From b2a50b1a4e9460c00d74e624d1d6774e363614d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 042/102] fix: search for struct types only and leave out
 aliases

---
 internal/search/search.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/search/search.go b/internal/search/search.go
index 1fce5a9..916a229 100644
--- a/internal/search/search.go
+++ b/internal/search/search.go
@@ -120,7 +120,11 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 						continue
 					}
 					named, ok := typeName.Type().(*types.Named)
-					if !ok {
+					if !ok || typeName.IsAlias() {
+						continue
+					}
+					// only structs are targets
+					if _, ok := named.Underlying().(*types.Struct); !ok {
 						continue
 					}
 
-- 
2.43.0


From fcad0baf06bd4f3fde87595924aab286556677b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 043/102] fix: resolve input files against the working
 directory

---
 internal/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 12f180a..ededae9 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -248,6 +248,11 @@ func (c *Config) Validate() (err error) {
 
 	// update file paths to absolutes
 	for i, fp := range c.InputFiles.Value {
+		// NOTE the working directory may have been reached through a symbolic
+		// link, join with it so that the result is a path as found by the search
+		if !filepath.IsAbs(fp) {
+			fp = filepath.Join(c.WorkingDirectory.Value, fp)
+		}
 		abs, err := filepath.Abs(fp)
 		if err != nil {
 			return fmt.Errorf("error resolving absolute path of file: %q -- %v", fp, err)
-- 
2.43.0


From 79d9f783c57c3b91bffe1a7dce26777236a6a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 044/102] fix: do not overwrite input files or other output
 with the output

---
 internal/command/command.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..61c852d 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -60,6 +60,14 @@ func (cmd *Command) Run() error {
 		return err
 	}
 
+	// the output must not overwrite the input, nor other output
+	taken := make(map[string]bool)
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			taken[file.Path] = true
+		}
+	}
+
 	result := make([][]*outFile, len(pkgs))
 	for i, pkg := range pkgs {
 		outFiles := make([]*outFile, len(pkg.Files))
@@ -67,6 +75,11 @@ func (cmd *Command) Run() error {
 		for j, file := range pkg.Files {
 			out := new(outFile)
 			out.path = cmd.outFilePath(file.Path)
+			if taken[out.path] {
+				return fmt.Errorf("bad output filename format: %q -- the output of %q would overwrite %q",
+					cmd.OutputFileNameFormat.Value, file.Path, out.path)
+			}
+			taken[out.path] = true
 			out.targInfos = make([]*postgres.TargetInfo, len(file.Matches))
 
 			for k, match := range file.Matches {
-- 
2.43.0


From 0bd6ed27eece6b857612f13c89c485a0c59944d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 045/102] fix: format all output before writing any of it

---
 internal/command/command.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index 61c852d..85a539c 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -103,6 +103,13 @@ func (cmd *Command) Run() error {
 				return err
 			}
 
+			// make it look pretty
+			bs, err := format.Source(out.buf.Bytes())
+			if err != nil {
+				return err
+			}
+			out.buf = *bytes.NewBuffer(bs)
+
 			outFiles[j] = out
 		}
 		result[i] = outFiles
@@ -153,14 +160,7 @@ func (cmd *Command) writeOutFile(out *outFile) (err error) {
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
-		return err
-	}
-
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
+	if _, err := io.Copy(f, &out.buf); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 6122bee563f8ea5e831d65ffe50f5a901eefe14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 046/102] fix: see through type aliases

---
 internal/analysis/analysis.go    | 25 +++++------
 internal/typesutil/predicates.go | 72 ++++++++++++++------------------
 internal/typesutil/utils.go      |  4 +-
 3 files changed, 46 insertions(+), 55 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 908f7ec..11d0bab 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -446,7 +446,7 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		}
 	}()
 
-	ftyp := field.Type()
+	ftyp := types.Unalias(field.Type())
 	cacheKey := ftyp.String()
 	named, ok := ftyp.(*types.Named)
 	if ok {
@@ -480,15 +480,15 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	} else {
 		// If not an iterator, check for slices, arrays, and pointers.
 		if slice, ok := ftyp.(*types.Slice); ok { // allows []T / []*T
-			ftyp = slice.Elem()
+			ftyp = types.Unalias(slice.Elem())
 			rt.IsSlice = true
 		} else if array, ok := ftyp.(*types.Array); ok { // allows [N]T / [N]*T
-			ftyp = array.Elem()
+			ftyp = types.Unalias(array.Elem())
 			rt.IsArray = true
 			rt.ArrayLen = array.Len()
 		}
 		if ptr, ok := ftyp.(*types.Pointer); ok { // allows *T
-			ftyp = ptr.Elem()
+			ftyp = types.Unalias(ptr.Elem())
 			rt.IsPointer = true
 		}
 
@@ -655,7 +655,7 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
-	base = tt
+	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
 		pkg := named.Obj().Pkg()
@@ -735,9 +735,9 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 		return nil, false
 	}
 
-	typ := sig.Params().At(0).Type()
+	typ := types.Unalias(sig.Params().At(0).Type())
 	if ptr, ok := typ.(*types.Pointer); ok { // allows *T
-		typ = ptr.Elem()
+		typ = types.Unalias(ptr.Elem())
 		rt.IsPointer = true
 	}
 
@@ -1823,7 +1823,7 @@ func addToRelSpace(a *analysis, id RelIdent) (ecode errorCode, errval string) {
 
 // analyzeTypeKind returns the TypeKind for the given types.Type.
 func analyzeTypeKind(typ types.Type) TypeKind {
-	switch x := typ.(type) {
+	switch x := types.Unalias(typ).(type) {
 	case *types.Basic:
 		return typesBasicKindToTypeKind[x.Kind()]
 	case *types.Array:
@@ -2186,7 +2186,7 @@ type exportable interface {
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
 func isIntegerType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2196,7 +2196,7 @@ func isIntegerType(typ types.Type) bool {
 
 // isBoolType reports whether or not the given type is a boolean.
 func isBoolType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2206,10 +2206,11 @@ func isBoolType(typ types.Type) bool {
 // handlerType returns the named type whose methods can be called on a field of
 // the given type, or nil if there's none.
 func handlerType(typ types.Type) *types.Named {
+	typ = types.Unalias(typ)
 	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
 		typ = ptr.Elem()
 	}
-	named, _ := typ.(*types.Named)
+	named, _ := types.Unalias(typ).(*types.Named)
 	return named
 }
 
@@ -2227,7 +2228,7 @@ func isErrorInfoHandler(typ types.Type) bool {
 
 // isFilterType reports whether or not the given type is the gosql.Filter type.
 func isFilterType(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index f6e8ef9..cd5210e 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -7,7 +7,7 @@ import (
 
 // IsString reports whether or not the given type is the builtin "string" type.
 func IsString(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -16,14 +16,14 @@ func IsString(typ types.Type) bool {
 
 // IsStringMap reports whether or not the given type is the "map[string]string" type.
 func IsStringMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
-	if e, ok := m.Elem().(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
+	if e, ok := types.Unalias(m.Elem()).(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
 		return false
 	}
 	return true
@@ -31,11 +31,11 @@ func IsStringMap(typ types.Type) bool {
 
 // IsStringColumnMap reports whether or not the given type is the "map[string]filter.Column" type.
 func IsStringColumnMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
 	if !IsFilterColumn(m.Elem()) {
@@ -46,7 +46,7 @@ func IsStringColumnMap(typ types.Type) bool {
 
 // IsNiladicFunc reports whether or not the given type is the "func()" type.
 func IsNiladicFunc(typ types.Type) bool {
-	sig, ok := typ.(*types.Signature)
+	sig, ok := types.Unalias(typ).(*types.Signature)
 	if !ok {
 		return false
 	}
@@ -55,7 +55,7 @@ func IsNiladicFunc(typ types.Type) bool {
 
 // IsError reports whether or not the given type is the "error" type.
 func IsError(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -66,17 +66,7 @@ func IsError(typ types.Type) bool {
 
 // IsEmptyInterface reports whether or not the given type is the "interface{}" type.
 func IsEmptyInterface(typ types.Type) bool {
-	// handle builtin "any" alias
-	if alias, ok := typ.(*types.Alias); ok {
-		pkg := alias.Obj().Pkg()
-		name := alias.Obj().Name()
-		if name != "any" || pkg != nil {
-			return false
-		}
-		typ = alias.Underlying()
-	}
-
-	iface, ok := typ.(*types.Interface)
+	iface, ok := types.Unalias(typ).(*types.Interface)
 	if !ok {
 		return false
 	}
@@ -85,7 +75,7 @@ func IsEmptyInterface(typ types.Type) bool {
 
 // IsEmptyInterfaceSlice reports whether or not the given type is the "[]interface{}" type.
 func IsEmptyInterfaceSlice(typ types.Type) bool {
-	if s, ok := typ.(*types.Slice); ok {
+	if s, ok := types.Unalias(typ).(*types.Slice); ok {
 		return IsEmptyInterface(s.Elem())
 	}
 	return false
@@ -93,7 +83,7 @@ func IsEmptyInterfaceSlice(typ types.Type) bool {
 
 // IsContext reports whether or not the given type is the standard "context.Context" type.
 func IsContext(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -111,7 +101,7 @@ func IsContext(typ types.Type) bool {
 // IsTime returns true also for types that embed "time.Time" directly, this
 // is to provide support for custom timestamp types.
 func IsTime(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -128,7 +118,7 @@ func IsTime(typ types.Type) bool {
 	if S, ok := named.Underlying().(*types.Struct); ok {
 		for i := 0; i < S.NumFields(); i++ {
 			f := S.Field(i)
-			named, ok := f.Type().(*types.Named)
+			named, ok := types.Unalias(f.Type()).(*types.Named)
 			if ok && f.Anonymous() {
 				typeName := named.Obj()
 				if pkg := typeName.Pkg(); pkg != nil {
@@ -146,7 +136,7 @@ func IsTime(typ types.Type) bool {
 
 // IsSqlResult reports whether or not the given type is the standard "sql.Result" type.
 func IsSqlResult(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -162,11 +152,11 @@ func IsSqlResult(typ types.Type) bool {
 
 // IsSqlRowsPtr reports whether or not the given type is the standard "*sql.Rows" type.
 func IsSqlRowsPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -182,11 +172,11 @@ func IsSqlRowsPtr(typ types.Type) bool {
 
 // IsSqlRowPtr reports whether or not the given type is the standard "*sql.Row" type.
 func IsSqlRowPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -202,7 +192,7 @@ func IsSqlRowPtr(typ types.Type) bool {
 
 // IsSqlDriverValue reports whether or not the given type is the "database/sql/driver.Value" type.
 func IsSqlDriverValue(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -218,7 +208,7 @@ func IsSqlDriverValue(typ types.Type) bool {
 
 // IsFilterColumn reports whether or not the given type is the "github.com/frk/gosql/filter.Column" type.
 func IsFilterColumn(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -238,7 +228,7 @@ func IsFilterColumn(typ types.Type) bool {
 
 // IsDirective reports whether or not the given type is a "github.com/frk/gosql" directive type.
 func IsDirective(ident string, typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -299,11 +289,11 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 	// check that the method's argument is of type *gosql.ErrorInfo
 	argtyp := sig.Params().At(0).Type()
-	argptr, ok := argtyp.(*types.Pointer)
+	argptr, ok := types.Unalias(argtyp).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	argnamed, ok := argptr.Elem().(*types.Named)
+	argnamed, ok := types.Unalias(argptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -414,7 +404,7 @@ func ImplementsGosqlConn(named *types.Named) bool {
 // ImplementsGosqlFilterConstructor reports whether or not the given named
 // type implements the "gosql.FilterConstructor" interface.
 func ImplementsGosqlFilterConstructor(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -684,8 +674,8 @@ type Methoder interface {
 
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
-	if s, ok := t.(*types.Slice); ok {
-		if e, ok := s.Elem().(*types.Basic); ok && e.Kind() == types.Byte {
+	if s, ok := types.Unalias(t).(*types.Slice); ok {
+		if e, ok := types.Unalias(s.Elem()).(*types.Basic); ok && e.Kind() == types.Byte {
 			return true
 		}
 	}
@@ -694,11 +684,11 @@ func isbyteslice(t types.Type) bool {
 
 // isxmlencoder reports whether or not the given type is an *encoding/xml.Encoder type.
 func isxmlencoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -710,11 +700,11 @@ func isxmlencoder(typ types.Type) bool {
 
 // isxmldecoder reports whether or not the given type is a *encoding/xml.Decoder type.
 func isxmldecoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -726,7 +716,7 @@ func isxmldecoder(typ types.Type) bool {
 
 // isxmlstartelem reports whether or not the given type is a encoding/xml.StartElement type.
 func isxmlstartelem(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 7435d1c..5985175 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -19,7 +19,7 @@ type NamedStruct struct {
 // type is not a struct then GetStruct will return an error.
 func GetStruct(v *types.Var) (*NamedStruct, error) {
 	ns := new(NamedStruct)
-	typ := v.Type()
+	typ := types.Unalias(v.Type())
 
 	var ok bool
 	if ns.Named, ok = typ.(*types.Named); ok {
@@ -36,7 +36,7 @@ func GetStruct(v *types.Var) (*NamedStruct, error) {
 // variable. If the type of the given variable is not a directive an empty
 // string will be returned instead.
 func GetDirectiveName(v *types.Var) string {
-	named, ok := v.Type().(*types.Named)
+	named, ok := types.Unalias(v.Type()).(*types.Named)
 	if !ok {
 		return ""
 	}
-- 
2.43.0


From 72785ae9de8f5e24f0ae7fa045b2a1839a882d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 047/102] fix: accept that predeclared types have no package

---
 internal/analysis/analysis.go    | 22 +++++++++++++---------
 internal/typesutil/predicates.go | 21 +++++++++++++++------
 internal/typesutil/utils.go      |  2 +-
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 11d0bab..8d22169 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -503,11 +503,13 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	if named != nil {
-		pkg := named.Obj().Pkg()
 		rt.Base.Name = named.Obj().Name()
-		rt.Base.PkgPath = pkg.Path()
-		rt.Base.PkgName = pkg.Name()
-		rt.Base.PkgLocal = pkg.Name()
+		// predeclared types, e.g. error, have no package
+		if pkg := named.Obj().Pkg(); pkg != nil {
+			rt.Base.PkgPath = pkg.Path()
+			rt.Base.PkgName = pkg.Name()
+			rt.Base.PkgLocal = pkg.Name()
+		}
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
@@ -658,11 +660,13 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
-		pkg := named.Obj().Pkg()
 		typ.Name = named.Obj().Name()
-		typ.PkgPath = pkg.Path()
-		typ.PkgName = pkg.Name()
-		typ.PkgLocal = pkg.Name()
+		// predeclared types, e.g. error, have no package
+		if pkg := named.Obj().Pkg(); pkg != nil {
+			typ.PkgPath = pkg.Path()
+			typ.PkgName = pkg.Name()
+			typ.PkgLocal = pkg.Name()
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -2169,7 +2173,7 @@ func (cl *ColIdentList) Contains(cid ColIdent) bool {
 // isImportedType reports whether or not the given type is imported based on
 // on the package in which the target of the analysis is declared.
 func isImportedType(a *analysis, named *types.Named) bool {
-	return named != nil && named.Obj().Pkg().Path() != a.pkgPath
+	return named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != a.pkgPath
 }
 
 // isAccessible reports whether or not the given value is accessible from
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index cd5210e..475dbd9 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -214,7 +214,7 @@ func IsFilterColumn(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 
 	if name != "Column" {
 		return false
@@ -238,7 +238,7 @@ func IsDirective(ident string, typ types.Type) bool {
 	}
 
 	// Compare the suffix only to allow for vendor imports.
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return false
 	}
@@ -298,7 +298,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 		return false
 	}
 	name := argnamed.Obj().Name()
-	path := argnamed.Obj().Pkg().Path()
+	path := pkgPath(argnamed)
 	return strings.HasSuffix(path, "github.com/frk/gosql") && name == "ErrorInfo"
 }
 
@@ -665,6 +665,15 @@ func IsXMLUnmarshaler(mm Methoder) bool {
 	return IsError(sig.Results().At(0).Type())
 }
 
+// pkgPath returns the path of the package in which the given type is declared,
+// the path is empty for predeclared types.
+func pkgPath(named *types.Named) string {
+	if pkg := named.Obj().Pkg(); pkg != nil {
+		return pkg.Path()
+	}
+	return ""
+}
+
 // Methoder represents a type with methods. It is implicitly implemented
 // by *types.Interface and *types.Named.
 type Methoder interface {
@@ -694,7 +703,7 @@ func isxmlencoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Encoder" && path == "encoding/xml"
 }
 
@@ -710,7 +719,7 @@ func isxmldecoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Decoder" && path == "encoding/xml"
 }
 
@@ -722,6 +731,6 @@ func isxmlstartelem(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "StartElement" && path == "encoding/xml"
 }
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 5985175..9ab5d16 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -41,7 +41,7 @@ func GetDirectiveName(v *types.Var) string {
 		return ""
 	}
 
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return ""
 	}
-- 
2.43.0


From a43e6eb9604bd708a41a82c0b7655326b5d3d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 048/102] fix: consider promoted methods when looking for
 interfaces

---
 internal/typesutil/predicates.go | 52 +++++++++++++++-----------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 475dbd9..da63d0f 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -409,10 +409,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		return false
 	}
 
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
 
@@ -482,10 +479,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 // interface type, ImplementsScanner will report whether or not that interface
 // type declares, or embeds, the "Scan(interface{}) error" method.
 func ImplementsScanner(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsScanner(iface)
-	}
-	return IsScanner(named)
+	return IsScanner(methodsOf(named))
 }
 
 // IsScanner reports whether or not the given Methoder type declares,
@@ -513,10 +507,7 @@ func IsScanner(mm Methoder) bool {
 // an interface type, ImplementsValuer will report whether or not that interface
 // type declares, or embeds, the "Value() (driver.Value, error)" method.
 func ImplementsValuer(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsValuer(iface)
-	}
-	return IsValuer(named)
+	return IsValuer(methodsOf(named))
 }
 
 // IsValuer reports whether or not the given Methoder type declares,
@@ -544,10 +535,7 @@ func IsValuer(mm Methoder) bool {
 // is an interface type, ImplementsJSONMarshaler will report whether or not that
 // interface type declares, or embeds, the "MarshalJSON() ([]byte, error)" method.
 func ImplementsJSONMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONMarshaler(iface)
-	}
-	return IsJSONMarshaler(named)
+	return IsJSONMarshaler(methodsOf(named))
 }
 
 // IsJSONMarshaler reports whether or not the given Methoder type declares,
@@ -575,10 +563,7 @@ func IsJSONMarshaler(mm Methoder) bool {
 // is an interface type, ImplementsJSONUnmarshaler will report whether or not that
 // interface type declares, or embeds, the "UnmarshalJSON([]byte) (error)" method.
 func ImplementsJSONUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONUnmarshaler(iface)
-	}
-	return IsJSONUnmarshaler(named)
+	return IsJSONUnmarshaler(methodsOf(named))
 }
 
 // IsJSONUnmarshaler reports whether or not the given Methoder type declares,
@@ -606,10 +591,7 @@ func IsJSONUnmarshaler(mm Methoder) bool {
 // type, ImplementsXMLMarshaler will report whether or not that interface type declares,
 // or embeds, the "MarshalXML(*xml.Encoder, xml.StartElement) (error)" method.
 func ImplementsXMLMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLMarshaler(iface)
-	}
-	return IsXMLMarshaler(named)
+	return IsXMLMarshaler(methodsOf(named))
 }
 
 // IsXMLMarshaler reports whether or not the given Methoder type declares,
@@ -638,10 +620,7 @@ func IsXMLMarshaler(mm Methoder) bool {
 // type, ImplementsXMLUnmarshaler will report whether or not that interface type declares,
 // or embeds, the "UnmarshalXML(*xml.Decoder, xml.StartElement) (error)" method.
 func ImplementsXMLUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLUnmarshaler(iface)
-	}
-	return IsXMLUnmarshaler(named)
+	return IsXMLUnmarshaler(methodsOf(named))
 }
 
 // IsXMLUnmarshaler reports whether or not the given Methoder type declares,
@@ -681,6 +660,23 @@ type Methoder interface {
 	Method(i int) *types.Func
 }
 
+// methodsOf returns the methods of the given type, or a pointer to it, including
+// those that are promoted from embedded fields.
+func methodsOf(named *types.Named) Methoder {
+	if iface, ok := named.Underlying().(*types.Interface); ok {
+		return iface
+	}
+	return methodSet{types.NewMethodSet(types.NewPointer(named))}
+}
+
+// methodSet implements Methoder.
+type methodSet struct {
+	set *types.MethodSet
+}
+
+func (ms methodSet) NumMethods() int          { return ms.set.Len() }
+func (ms methodSet) Method(i int) *types.Func { return ms.set.At(i).Obj().(*types.Func) }
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
 	if s, ok := types.Unalias(t).(*types.Slice); ok {
-- 
2.43.0


From 910e2e638433be0716958c5d409d0c945e0bdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 049/102] fix: generate filter methods with free names and
 valid value types

---
 internal/analysis/analysis.go   | 47 +++++++++++++++++++++++++++++++++
 internal/generator/generator.go | 29 +++++++++++++++-----
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 8d22169..9e7d6b3 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2,6 +2,7 @@ package analysis
 
 import (
 	"fmt"
+	"go/ast"
 	"go/token"
 	"go/types"
 	"log"
@@ -72,6 +73,8 @@ type Info struct {
 	PkgPath string
 	// The type name of the analyzed TargetStruct.
 	TypeName string
+	// The names of the TargetStruct's fields.
+	FieldNames []string
 	// The soruce position of the TargetStruct's type name.
 	TypeNamePos token.Pos
 	// FieldMap maintains a map of pointers of arbitrary type that represent
@@ -107,6 +110,9 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 	a.info.TypeNamePos = pos
 	a.info.FieldMap = make(map[FieldPtr]FieldVar)
 	a.info.RelSpace = make(map[string]RelIdent)
+	for i := 0; i < structType.NumFields(); i++ {
+		a.info.FieldNames = append(a.info.FieldNames, structType.Field(i).Name())
+	}
 
 	if strings.HasPrefix(strings.ToLower(named.Obj().Name()), "filter") {
 		s, err := analyzeFilterStruct(a, structType)
@@ -2277,6 +2283,47 @@ func (t *TypeInfo) Literal() LiteralType {
 	return t.literal(false, true)
 }
 
+// QualifiedLiteral returns the literal of the type, with the name of every named type
+// qualified by what the given function returns for it. The second return value reports
+// whether or not the type can be represented by a literal. Just like with Literal, if
+// the type is a pointer, the literal of its base type is returned.
+func (t *TypeInfo) QualifiedLiteral(qualifier func(*TypeInfo) string) (lit LiteralType, ok bool) {
+	if t.Kind == TypeKindPtr && len(t.Name) == 0 {
+		t = t.Elem
+	}
+	return t.qualifiedLiteral(qualifier)
+}
+
+func (t *TypeInfo) qualifiedLiteral(qualifier func(*TypeInfo) string) (lit LiteralType, ok bool) {
+	if len(t.Name) > 0 {
+		if q := qualifier(t); len(q) > 0 {
+			return LiteralType(q + "." + t.Name), ast.IsExported(t.Name)
+		}
+		return LiteralType(t.Name), true
+	}
+
+	var prefix string
+	switch t.Kind {
+	default:
+		lit = t.literal(false, false)
+		return lit, len(lit) > 0 && lit[0] != '<'
+	case TypeKindArray:
+		prefix = "[" + strconv.FormatInt(t.ArrayLen, 10) + "]"
+	case TypeKindSlice:
+		prefix = "[]"
+	case TypeKindPtr:
+		prefix = "*"
+	case TypeKindMap:
+		if lit, ok = t.Key.qualifiedLiteral(qualifier); !ok {
+			return "", false
+		}
+		prefix = "map[" + string(lit) + "]"
+	}
+
+	lit, ok = t.Elem.qualifiedLiteral(qualifier)
+	return LiteralType(prefix) + lit, ok
+}
+
 func (t *TypeInfo) literal(pkgLocal, elidePtr bool) LiteralType {
 	if len(t.Name) > 0 {
 		if pkgLocal && len(t.PkgLocal) > 0 && t.PkgLocal != "." {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d487b78..9bd5381 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -838,6 +838,12 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		selx  = GO.SelectorExpr{X: GO.SelectorExpr{X: recv, Sel: ctor}, Sel: GO.Ident{"Col"}}
 	)
 
+	// names that can't be used for the methods
+	taken := make(map[string]struct{})
+	for _, name := range g.info.Info.FieldNames {
+		taken[name] = struct{}{}
+	}
+
 	for _, ff := range g.info.Filters {
 		methodecl := GO.MethodDecl{}
 
@@ -865,19 +871,27 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok {
 			continue
 		}
+		// skip if the name is already in use
+		if _, ok := taken[methodecl.Name.Name]; ok {
+			continue
+		}
+		taken[methodecl.Name.Name] = struct{}{}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
+		// the value's type; imports are added as necessary
+		valtype, ok := ff.Field.Type.QualifiedLiteral(func(typ *analysis.TypeInfo) string {
+			if typ.PkgPath == "" || typ.PkgPath == g.info.Info.PkgPath {
+				return ""
 			}
+			return addimport(g.file, typ.PkgPath, typ.PkgName).name
+		})
+		if !ok {
+			valtype = "interface{}"
 		}
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{string(valtype)}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -2435,6 +2449,9 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"TextSearch":    struct{}{},
 	"AND":           struct{}{},
 	"OR":            struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
+	"Init":          struct{}{},
 }
 
 var sqlQUANTIFIER = map[analysis.Quantifier]SQL.QUANTIFIER{
-- 
2.43.0


From f95bc1cd714e4f3ef6dbb954b4d7c2c03fc9bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 050/102] fix: keep the case of the text search column

---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9e7d6b3..7a25a38 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1796,7 +1796,7 @@ func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
 	}
 
 	tval := tagutil.New(tag).First("sql")
-	tval = strings.ToLower(strings.TrimSpace(tval))
+	tval = strings.TrimSpace(tval)
 
 	cid, ecode, eval := parseColIdent(a, tval)
 	if ecode > 0 {
-- 
2.43.0


From 856af64a8d49f7ffb380985a229024d8975a2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 051/102] fix: forget the filter value converters of a previous
 configuration

---
 internal/analysis/analysis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 7a25a38..9d31235 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2458,6 +2458,8 @@ var relTypeCache = struct {
 var filterValueConverters = map[string]*Identifier{}
 
 func AnalyzeFilterValueConverters(cfg config.Config) error {
+	// forget the converters of a previous configuration
+	filterValueConverters = make(map[string]*Identifier, len(cfg.FilterValueConverters))
 	for _, fvc := range cfg.FilterValueConverters {
 		key := fvc.Type.PkgPath + "." + fvc.Type.Name
 		filterValueConverters[key] = &Identifier{
-- 
2.43.0


From 4240b7c1b9158b74751cd19fc0f5ccf66597e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 052/102] fix: key cached record types by package and
 configuration, and only cache valid ones

---
 internal/analysis/analysis.go | 42 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9d31235..99a7351 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -453,11 +453,10 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}()
 
 	ftyp := types.Unalias(field.Type())
-	cacheKey := ftyp.String()
+	cacheKey := newRelTypeKey(a, ftyp)
 	named, ok := ftyp.(*types.Named)
 	if ok {
 		ftyp = named.Underlying()
-		cacheKey = named.String()
 	}
 
 	relTypeCache.RLock()
@@ -519,10 +518,6 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
-
-		relTypeCache.Lock()
-		relTypeCache.m[cacheKey] = rt
-		relTypeCache.Unlock()
 	}
 
 	rt.Base.Kind = analyzeTypeKind(ftyp)
@@ -531,7 +526,17 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	styp := ftyp.(*types.Struct)
-	return analyzeFieldInfoList(a, rt, styp)
+	if err := analyzeFieldInfoList(a, rt, styp); err != nil {
+		return err
+	}
+
+	if named != nil {
+		cached := *rt
+		relTypeCache.Lock()
+		relTypeCache.m[cacheKey] = &cached
+		relTypeCache.Unlock()
+	}
+	return nil
 }
 
 // analyzeFieldInfoList
@@ -2450,8 +2455,27 @@ func (t *TypeInfo) IsXMLIllegal() bool {
 
 var relTypeCache = struct {
 	sync.RWMutex
-	m map[string]*RelType
-}{m: make(map[string]*RelType)}
+	m map[relTypeKey]*RelType
+}{m: make(map[relTypeKey]*RelType)}
+
+// relTypeKey identifies everything the result of analyzeRelType depends on.
+type relTypeKey struct {
+	pkg  *types.Package // the package of the analyzed target
+	typ  string
+	tag  string
+	sep  string
+	base bool
+}
+
+func newRelTypeKey(a *analysis, typ types.Type) relTypeKey {
+	return relTypeKey{
+		pkg:  a.named.Obj().Pkg(),
+		typ:  typ.String(),
+		tag:  a.cfg.FilterColumnKeyTag.Value,
+		sep:  a.cfg.FilterColumnKeySeparator.Value,
+		base: a.cfg.FilterColumnKeyBase.Value,
+	}
+}
 
 ////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 609e5b3dce560bed15c398e32ae8a82422844e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 053/102] fix: do not print a debugging message

---
 internal/postgres/postgres.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 3503e7c..47ada04 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -747,7 +747,6 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		if !ok && cond.Predicate.IsArray() {
 			return errPredicateOperandArray
 		} else if !ok && cond.Quantifier > 0 {
-			log.Println("EHHEHEHEHE")
 			return errPredicateOperandQuantifier
 		}
 	}
-- 
2.43.0


From 5531d2831fba763af65da7d36d13c00e4755e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 054/102] fix: update without primary key fields and with a
 From block crashed the generator

---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 9bd5381..693074e 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1242,6 +1242,10 @@ func buildSQLOnConflictClause(g *generator, qs *analysis.QueryStruct) {
 // buildSQLWhereClause builds the SQL.WhereClause
 func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 	if qs.IsUpdateWithPKeys() {
+		if len(g.info.PKeys) == 0 {
+			return
+		}
+
 		list := SQL.BoolValueExprList{}
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
-- 
2.43.0


From 50b0a6428f8dfd3b131b641549eaf25693fbd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 055/102] fix: slice update with the Return directive lacked
 the RETURNING clause

---
 internal/generator/generator.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 693074e..7a7d239 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1041,9 +1041,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns := append(g.inputColsValues, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
-		if qs.Result != nil {
-			tail.Returning = SQL.ReturningClause(g.outputVals)
-		}
+		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From d70698ddf1553b3426b3a139c61446d1a0181dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 056/102] fix: slice update with a From block produced invalid
 SQL

---
 internal/generator/generator.go | 44 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 7a7d239..ec092b2 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -11,6 +11,7 @@ import (
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
 
+	"github.com/frk/ast"
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -1020,6 +1021,17 @@ func buildSQLInsertStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// The nextTableExpr type is a table expression, other than a join, that follows another one.
+type nextTableExpr struct {
+	SQL.TableExpr
+}
+
+// Walk writes the table expression preceded by a comma.
+func (x nextTableExpr) Walk(w *ast.Writer) {
+	w.Write(", ")
+	x.TableExpr.Walk(w)
+}
+
 // buildSQLUpdateStatement builds an SQL.UpdateStatement.
 func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.UpdateStatement{}
@@ -1036,7 +1048,11 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		values := SQL.TableExpr(SQL.ValuesListClausePartial{})
+		if qs.Join != nil {
+			values = nextTableExpr{values}
+		}
+		stmt.Head.From.List = append(stmt.Head.From.List, values)
 
 		columns := append(g.inputColsValues, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
@@ -2389,10 +2405,30 @@ func isSliceUpdate(qs *analysis.QueryStruct) bool {
 
 // valuesListAlias returns the alias of the FROM (VALUES ...) list of a slice update.
 func valuesListAlias(qs *analysis.QueryStruct) string {
-	if qs.Rel.Id.Alias == "x" || (len(qs.Rel.Id.Alias) == 0 && qs.Rel.Id.Name == "x") {
-		return "x_"
+	used := map[string]bool{}
+	use := func(id analysis.RelIdent) {
+		if len(id.Alias) > 0 {
+			used[id.Alias] = true
+		} else {
+			used[id.Name] = true
+		}
+	}
+
+	use(qs.Rel.Id)
+	if qs.Join != nil {
+		if qs.Join.Relation != nil {
+			use(qs.Join.Relation.RelIdent)
+		}
+		for _, dir := range qs.Join.Directives {
+			use(dir.RelIdent)
+		}
+	}
+
+	alias := "x"
+	for used[alias] {
+		alias += "_"
 	}
-	return "x"
+	return alias
 }
 
 // canUseDefault reports whether or not the SQL's DEFAULT marker should be
-- 
2.43.0


From 2dda70eda063f1b0664eb2067161b16e1ef98c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 057/102] fix: reject join conditions that reference the target
 of an update or delete

---
 internal/postgres/errors.go   | 8 ++++++++
 internal/postgres/postgres.go | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 637ab6b..616817a 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -48,6 +48,7 @@ const (
 	errColumnFieldTypeRead
 	errColumnFieldComparison
 	errColumnQualifierUnknown
+	errColumnJoinTarget
 	errColumnComparison
 	// predicate errors
 	errPredicateOperandQuantifier
@@ -455,6 +456,13 @@ Column error templates
     - please consider opening an issue if the error persists.
 {{ end }}
 
+{{ define "` + errColumnJoinTarget.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Bad column reference in join condition."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" belongs to the target relation.
+    - the target relation of an update or delete CANNOT be referenced from a join condition.
+    - {{Wb "FIX:"}} move the condition to the "{{W "where struct"}}".
+{{ end }}
+
 --------------------------------------------------------------------------------
 Pred error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 47ada04..808021b 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -510,6 +510,13 @@ func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 				if err := typeCheckColumnConditional(c, cond, rel, dir.RelIdent, dir); err != nil {
 					return err
 				}
+				// ❌ The target of an UPDATE or DELETE cannot be referenced from the
+				// join conditions in the FROM or USING clause.
+				isWrite := qs.Kind == analysis.QueryKindUpdate || qs.Kind == analysis.QueryKindDelete
+				if q := cond.RHSColIdent.Qualifier; isWrite && cond.RHSColumn != nil && (q == "" || q == relIdentKey(c.rid)) {
+					return c.dbError(dbError{Code: errColumnJoinTarget,
+						Col: colInfo{Id: cond.RHSColIdent, Column: cond.RHSColumn}}, dir)
+				}
 				conds[i] = cond
 			default:
 				// NOTE(mkopriva): currently predicates other than
-- 
2.43.0


From bf60c6227e1dd01917b4580ac79fe080e6bb31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 058/102] fix: qualify columns of the target relation that
 other relations share

---
 internal/generator/generator.go | 45 ++++++++++++++++++++++++++-------
 internal/postgres/postgres.go   | 23 +++++++++++++++++
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ec092b2..aadb8d2 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1216,7 +1216,7 @@ func buildSQLOrderClause(g *generator, qs *analysis.QueryStruct) {
 
 	for _, item := range qs.OrderBy.Items {
 		order := SQL.OrderBy{}
-		order.Column = makeColRef(item.ColIdent)
+		order.Column = makeTargetColRef(g, item.ColIdent)
 		order.Desc = (item.Direction == analysis.OrderDesc)
 		order.NullsFirst = (item.Nulls == analysis.NullsFirst)
 		g.orderClause.List = append(g.orderClause.List, order)
@@ -1264,7 +1264,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeColRef(fw.ColIdent)
+			predicate.LPredicand = makeTargetColRef(g, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -1299,6 +1299,15 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 		conds := make([]postgres.WhereConditional, len(g.info.Joins[i]))
 		for j := 0; j < len(g.info.Joins[i]); j++ {
 			conds[j] = g.info.Joins[i][j]
+
+			// without a qualifier the left-hand-side column is one of the joined relation
+			if cond, ok := conds[j].(*postgres.ColumnConditional); ok && cond.LHSColIdent.Qualifier == "" {
+				if g.info.IsSharedColumn(cond.LHSColIdent.Name) {
+					cond := *cond
+					cond.LHSColIdent.Qualifier = relQualifier(dir.RelIdent)
+					conds[j] = &cond
+				}
+			}
 		}
 
 		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
@@ -1347,7 +1356,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				fieldName = cond.FieldName // needed for isin/notin predicates
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.ColIdent)
+				lhs = makeTargetColRef(g, cond.ColIdent)
 				rhs = makeParamSpec(g, cond)
 
 				if len(cond.FuncName) > 0 {
@@ -1368,9 +1377,9 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			case *postgres.ColumnConditional:
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.LHSColIdent)
+				lhs = makeTargetColRef(g, cond.LHSColIdent)
 				if !cond.RHSColIdent.IsEmpty() {
-					rhs = makeColRef(cond.RHSColIdent)
+					rhs = makeTargetColRef(g, cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
 					rhs = SQL.Literal{cond.RHSLiteral}
 				}
@@ -1486,7 +1495,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
-	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Predicand = makeTargetColRef(g, cond.ColIdent)
 	predicate.Not = (cond.Predicate == analysis.NotBetween || cond.Predicate == analysis.NotBetweenSym)
 	if cond.Predicate == analysis.IsBetweenSym || cond.Predicate == analysis.NotBetweenSym {
 		predicate.Sym = SQL.SYMMETRIC
@@ -1494,14 +1503,14 @@ func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQ
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.LowEnd = makeColRef(lower.RHSColIdent)
+		predicate.LowEnd = makeTargetColRef(g, lower.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.LowEnd = makeParamSpec(g, lower)
 	}
 
 	switch upper := cond.UpperBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.HighEnd = makeColRef(upper.RHSColIdent)
+		predicate.HighEnd = makeTargetColRef(g, upper.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.HighEnd = makeParamSpec(g, upper)
 	}
@@ -2379,11 +2388,29 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 func makeColRefQualified(id analysis.ColIdent, rel analysis.RelIdent) SQL.ColumnReference {
 	ref := makeColRef(id)
 	if len(ref.Qual) == 0 {
-		ref.Qual = rel.Name
+		ref.Qual = relQualifier(rel)
 	}
 	return ref
 }
 
+// makeTargetColRef makes a reference to the column with the given identifier. An
+// identifier without a qualifier denotes a column of the target relation and it
+// will be qualified if the query uses other relations with a column of that name.
+func makeTargetColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
+	if qs, ok := g.info.Struct.(*analysis.QueryStruct); ok && g.info.IsSharedColumn(id.Name) {
+		return makeColRefQualified(id, qs.Rel.Id)
+	}
+	return makeColRef(id)
+}
+
+// relQualifier returns the qualifier for the columns of the given relation.
+func relQualifier(id analysis.RelIdent) string {
+	if len(id.Alias) > 0 {
+		return id.Alias
+	}
+	return id.Name
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 808021b..09cee43 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -175,6 +175,15 @@ type TargetInfo struct {
 	Joins    [][]TableJoinConditional
 	Where    []WhereConditional
 	Conflict *ConflictInfo
+
+	// names of the columns that exist in more than one of the query's relations.
+	shared map[string]bool
+}
+
+// IsSharedColumn reports whether or not a column with the given name
+// exists in more than one of the relations used by the target query.
+func (ti *TargetInfo) IsSharedColumn(name string) bool {
+	return ti.shared[name]
 }
 
 // Check type-checks the given TargetStruct against the connected-to postgres database.
@@ -202,6 +211,20 @@ func Check(db *DB, ts analysis.TargetStruct, info *analysis.Info) (_ *TargetInfo
 		if err := typeCheckQueryStruct(c, s); err != nil {
 			return nil, err
 		}
+
+		c.res.shared = make(map[string]bool)
+		seen := make(map[string]bool)
+		for key, rel := range c.relMap {
+			if key == "" { // same as the target relation
+				continue
+			}
+			for _, col := range rel.Columns {
+				if seen[col.Name] {
+					c.res.shared[col.Name] = true
+				}
+				seen[col.Name] = true
+			}
+		}
 	}
 	return c.res, nil
 }
-- 
2.43.0


From 468aca22c6a3de1d2baea70798248e38debf4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 059/102] fix: look up the relation by the exact name used in
 the generated SQL

---
 internal/postgres/postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 09cee43..9a9af71 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1878,7 +1878,11 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	FROM pg_class c
 	LEFT JOIN pg_namespace ns ON ns.oid = c.relnamespace
 	WHERE c.oid = to_regclass($1)` //`
-	row := db.QueryRow(selectRelationInfo, rid.QualifiedName())
+	name := `"` + rid.Name + `"` // the generated SQL quotes the name as well
+	if len(rid.Qualifier) > 0 {
+		name = rid.Qualifier + "." + name
+	}
+	row := db.QueryRow(selectRelationInfo, name)
 	if err := row.Scan(&rel.OID, &rel.Name, &rel.RelKind, &rel.Schema); err != nil {
 		if err == sql.ErrNoRows {
 			return nil, c.dbError(dbError{Code: errRelationUnknown,
-- 
2.43.0


From a16879959e0a3b983082d48b7fb175cc046d7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 060/102] fix: quote aliases and qualifiers that are reserved
 words or not lower case

---
 internal/generator/generator.go | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index aadb8d2..7206bec 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -2378,7 +2378,7 @@ func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 // makeColRef
 func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	return SQL.ColumnReference{
-		Qual: id.Qualifier,
+		Qual: fmtQualifier(id.Qualifier),
 		Name: SQL.Name(id.Name),
 	}
 }
@@ -2388,7 +2388,7 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 func makeColRefQualified(id analysis.ColIdent, rel analysis.RelIdent) SQL.ColumnReference {
 	ref := makeColRef(id)
 	if len(ref.Qual) == 0 {
-		ref.Qual = relQualifier(rel)
+		ref.Qual = fmtQualifier(relQualifier(rel))
 	}
 	return ref
 }
@@ -2411,13 +2411,49 @@ func relQualifier(id analysis.RelIdent) string {
 	return id.Name
 }
 
+// fmtQualifier returns the given alias, or name, of a relation in the form in which
+// it can be used in the SQL, i.e. if necessary enclosed in double quotes.
+func fmtQualifier(name string) string {
+	if lower := strings.ToLower(name); lower != name || sqlReserved[lower] {
+		return `"` + name + `"`
+	}
+	return name
+}
+
+// The SQL key words that cannot be used as the name of a relation.
+var sqlReserved = map[string]bool{
+	"all": true, "analyse": true, "analyze": true, "and": true, "any": true, "array": true,
+	"as": true, "asc": true, "asymmetric": true, "authorization": true, "binary": true,
+	"both": true, "case": true, "cast": true, "check": true, "collate": true, "collation": true,
+	"column": true, "concurrently": true, "constraint": true, "create": true, "cross": true,
+	"current_catalog": true, "current_date": true, "current_role": true, "current_schema": true,
+	"current_time": true, "current_timestamp": true, "current_user": true, "default": true,
+	"deferrable": true, "desc": true, "distinct": true, "do": true, "else": true, "end": true,
+	"except": true, "false": true, "fetch": true, "for": true, "foreign": true, "freeze": true,
+	"from": true, "full": true, "grant": true, "group": true, "having": true, "ilike": true,
+	"in": true, "initially": true, "inner": true, "intersect": true, "into": true, "is": true,
+	"isnull": true, "join": true, "lateral": true, "leading": true, "left": true, "like": true,
+	"limit": true, "localtime": true, "localtimestamp": true, "natural": true, "not": true,
+	"notnull": true, "null": true, "offset": true, "on": true, "only": true, "or": true,
+	"order": true, "outer": true, "overlaps": true, "placing": true, "primary": true,
+	"references": true, "returning": true, "right": true, "select": true, "session_user": true,
+	"similar": true, "some": true, "symmetric": true, "system_user": true, "table": true,
+	"tablesample": true, "then": true, "to": true, "trailing": true, "true": true, "union": true,
+	"unique": true, "user": true, "using": true, "variadic": true, "verbose": true, "when": true,
+	"where": true, "window": true, "with": true,
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
-	return SQL.Ident{
+	ident := SQL.Ident{
 		Name:  SQL.Name(id.Name),
 		Qual:  id.Qualifier,
-		Alias: id.Alias,
+		Alias: fmtQualifier(id.Alias),
+	}
+	if sqlReserved[strings.ToLower(id.Qualifier)] {
+		ident.Qual = `"` + id.Qualifier + `"`
 	}
+	return ident
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -2490,7 +2526,7 @@ func makeColIdentFormatter(cfg config.Config) (fn func(analysis.ColIdent) string
 // fmtColIdent returns the string representation of the column identifier.
 func fmtColIdent(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + "." + id.Name
+		return fmtQualifier(id.Qualifier) + "." + id.Name
 	}
 	return id.Name
 }
@@ -2499,7 +2535,7 @@ func fmtColIdent(id analysis.ColIdent) string {
 // with the name enclosed in double quotes.
 func fmtColIdentQuoted(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + `."` + id.Name + `"`
+		return fmtQualifier(id.Qualifier) + `."` + id.Name + `"`
 	}
 	return `"` + id.Name + `"`
 }
-- 
2.43.0


From 9cdbe805574c46ac7f89dfcf646fff7e1a81cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 061/102] fix: import the gosql and pgsql packages wherever the
 generated code refers to them

---
 internal/generator/generator.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 7206bec..4586e52 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -643,8 +643,8 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -1446,7 +1446,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				call := GO.CallExpr{Fun: makeGosqlIdent(g, "InValueList")}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -1539,7 +1539,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1607,7 +1606,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1619,8 +1617,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
-
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
 			binExpr := GO.BinaryExpr{Op: GO.BinaryAdd}
@@ -1629,7 +1625,7 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 			concatExpr := GO.BinaryExpr{Op: GO.BinaryAdd}
 			concatExpr.X = GO.RawStringLit(sep)
-			concatExpr.Y = GO.IndexExpr{X: ordinalParams, Index: binExpr}
+			concatExpr.Y = GO.IndexExpr{X: makeGosqlIdent(g, "OrdinalParameters"), Index: binExpr}
 
 			if ni, ok := val.(SQL.NULLIF); ok {
 				concatExpr.X = GO.RawStringLit(sep + `NULLIF(`)
@@ -1650,10 +1646,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
-
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
 	assign := GO.AssignStmt{Token: GO.AssignAdd}
@@ -2249,7 +2241,7 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			errorInfoType  = makeGosqlIdent(g, "ErrorInfo")
 		)
 
 		// produce:
@@ -2367,6 +2359,12 @@ func makeParamSpec(g *generator, ptr analysis.FieldPtr) SQL.OrdinalParameterSpec
 	return SQL.OrdinalParameterSpec{g.paramNum}
 }
 
+// makeGosqlIdent imports the gosql package and returns its identifier with the given name.
+func makeGosqlIdent(g *generator, name string) GO.QualifiedIdent {
+	imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+	return GO.QualifiedIdent{imp.name, name}
+}
+
 // makeRelTypeNode
 func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 	if reltyp.Base.IsImported {
-- 
2.43.0


From 1b1c41f521d4035a5ada77c5d1bcbd9e977d0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 062/102] fix: imports whose name is in use, and argument types
 of the package itself, gave code that does not compile

---
 internal/generator/generator.go | 43 +++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 4586e52..212139d 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -183,10 +183,13 @@ func (g *generator) tableExprSlice() []SQL.TableExpr {
 // buildQueryCode builds code for the given QueryStruct.
 func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	typ := g.cfg.MethodArgumentType
-	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-	typ.PkgName = imp.name
-	if g.cfg.MethodWithContext.Value {
-		_ = addimport(g.file, "context", "")
+	conn := GO.TypeNode(GO.Ident{typ.Name})
+	if typ.PkgPath != g.info.Info.PkgPath {
+		imp := addimport(g.file, typ.PkgPath, typ.PkgName)
+		conn = GO.QualifiedIdent{imp.name, typ.Name}
+	}
+	if typ.IsPtr {
+		conn = GO.PointerType{conn}
 	}
 
 	buildQueryInput(g, qs)
@@ -226,11 +229,6 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryResultRowsScan(g, qs)
 	}
 
-	conn := GO.TypeNode(GO.QualifiedIdent{typ.PkgName, typ.Name})
-	if typ.IsPtr {
-		conn = GO.PointerType{conn}
-	}
-
 	// put it all together
 	method := GO.MethodDecl{}
 	method.Recv.Name.Name = "q"
@@ -247,7 +245,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
+		ctxType := GO.TypeNode(GO.QualifiedIdent{addimport(g.file, "context", "").name, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -2182,10 +2180,35 @@ func addimport(f *file, path, name string) *impspec {
 		imp.local = true
 	}
 
+	// make sure that the name isn't taken by another import, nor by
+	// an identifier of the generated functions.
+	for n := 1; f.isTaken(imp.name); n++ {
+		imp.name = name + strconv.Itoa(n)
+		imp.local = true
+	}
+
 	f.impset = append(f.impset, imp)
 	return imp
 }
 
+// isTaken reports whether or not the given name cannot be used as the name of an import.
+func (f *file) isTaken(name string) bool {
+	for _, imp := range f.impset {
+		if imp.name == name {
+			return true
+		}
+	}
+	return generatedIdents[name]
+}
+
+// The identifiers that are declared, or predeclared and used, in the generated functions.
+var generatedIdents = map[string]bool{
+	"append": true, "c": true, "ctx": true, "err": true, "error": true, "f": true, "i": true,
+	"len": true, "make": true, "nest": true, "new": true, "nil": true, "nstatic": true, "op": true,
+	"params": true, "pos": true, "q": true, "queryString": true, "res": true, "row": true,
+	"rows": true, "string": true, "true": true, "v": true, "val": true,
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
-- 
2.43.0


From 07b46f8dac1d4f920c3b25fd14b4342b1f7e456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 063/102] fix: reject on conflict updates of a relation called
 excluded

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 616817a..015c0f7 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -69,6 +69,7 @@ const (
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
 	errOnConflictActionMissing
+	errOnConflictTargetName
 	// all-rows safeguard errors
 	errAllDirectiveMissing
 )
@@ -594,6 +595,12 @@ On Conflict error templates
     - {{Wb "FIX:"}} add either the "{{W "gosql.Ignore"}}" or the "{{W "gosql.Update"}}" directive.
 {{ end }}
 
+{{ define "` + errOnConflictTargetName.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Bad target relation name for on_conflict update."}}
+    The name, or alias, "{{R "excluded"}}" of the target relation is ambiguous in an on_conflict update.
+    - {{Wb "FIX:"}} use a different alias for the target relation.
+{{ end }}
+
 {{ define "` + errOnConflictConstraintUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Constraint not found."}}
     The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" does not exist.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9a9af71..f9b37e0 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1155,6 +1155,12 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		}
 	}
 
+	// in ON CONFLICT DO UPDATE "excluded" denotes the row proposed for insertion
+	if qs.OnConflict.Update != nil && relIdentKey(c.rid) == "excluded" {
+		return c.dbError(dbError{Code: errOnConflictTargetName,
+			Rel: relInfo{Id: c.rid, Relation: c.rel}}, qs.OnConflict.Update)
+	}
+
 	// check that the action is present
 	if qs.OnConflict.Ignore == nil && qs.OnConflict.Update == nil {
 		return c.dbError(dbError{Code: errOnConflictActionMissing,
-- 
2.43.0


From e081307f9958b4270a0041da43ff31e268ae833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 064/102] fix: imports named like the variables of IN lists
 gave code that does not compile

---
 internal/generator/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 212139d..b3df0f6 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -2183,7 +2183,7 @@ func addimport(f *file, path, name string) *impspec {
 	// make sure that the name isn't taken by another import, nor by
 	// an identifier of the generated functions.
 	for n := 1; f.isTaken(imp.name); n++ {
-		imp.name = name + strconv.Itoa(n)
+		imp.name = name + "_" + strconv.Itoa(n)
 		imp.local = true
 	}
 
@@ -2198,7 +2198,8 @@ func (f *file) isTaken(name string) bool {
 			return true
 		}
 	}
-	return generatedIdents[name]
+	// the functions also declare len1, pos1, len2, pos2, and so on
+	return generatedIdents[strings.TrimRight(name, "0123456789")]
 }
 
 // The identifiers that are declared, or predeclared and used, in the generated functions.
-- 
2.43.0


From 96a4087de2851ce753fd3365a3bb9b10b924273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 065/102] fix: casts to character and bit types truncated the
 values to length 1

---
 internal/generator/generator.go | 14 +++++++-------
 internal/postgres/types.go      | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b3df0f6..a0b8c3d 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -324,7 +324,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			} else {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
-				cast.Type = fw.Column.Type.NameFmt
+				cast.Type = fw.Column.Type.CastName()
 				expr = cast
 			}
 			g.inputVals = append(g.inputVals, expr)
@@ -653,7 +653,7 @@ func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.Va
 	if len(val) > 0 {
 		cast := SQL.CastExpr{}
 		cast.Expr = SQL.Literal{val}
-		cast.Type = c.Type.NameFmt
+		cast.Type = c.Type.CastName()
 
 		coalesce := SQL.Coalesce{}
 		coalesce.A = x
@@ -684,7 +684,7 @@ func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.Va
 	if lit, ok := c.Type.ZeroValueLiteral(); ok {
 		cast := SQL.CastExpr{}
 		cast.Expr = SQL.Literal{lit}
-		cast.Type = c.Type.NameFmt
+		cast.Type = c.Type.CastName()
 
 		coalesce := SQL.Coalesce{}
 		coalesce.A = x
@@ -711,7 +711,7 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
-		cast.Type = c.Type.NameFmt
+		cast.Type = c.Type.CastName()
 		return cast
 	}
 
@@ -722,7 +722,7 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
-		cast.Type = c.Type.NameFmt
+		cast.Type = c.Type.CastName()
 		return cast
 	}
 	return x
@@ -1268,7 +1268,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			if qs.Rel.Type.IsSlice {
 				predicate.LPredicand = makeColRefQualified(fw.ColIdent, qs.Rel.Id)
 				col := SQL.ColumnIdent{Qual: valuesListAlias(qs), Name: SQL.Name(fw.ColIdent.Name)}
-				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
+				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.CastName()}
 			}
 
 			if i == 0 {
@@ -1369,7 +1369,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 					rhs = rhsFuncCall
 				}
 				if cond.Quantifier > 0 {
-					columnType = cond.Column.Type.NameFmt
+					columnType = cond.Column.Type.CastName()
 				}
 
 			case *postgres.ColumnConditional:
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a90ba38..c083337 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -389,6 +389,22 @@ func (t *Type) GetNameFmt() string {
 	return t.NameFmt
 }
 
+// CastName returns the name of the type for use in type casts. Other than with the
+// NameFmt value, a cast to the returned name does not truncate character and bit values.
+func (t *Type) CastName() string {
+	switch t.OID {
+	case oid.BPChar:
+		return `bpchar`
+	case oid.BPCharArr:
+		return `bpchar[]`
+	case oid.Bit:
+		return `"bit"`
+	case oid.BitArr:
+		return `"bit"[]`
+	}
+	return t.NameFmt
+}
+
 func (c *Column) IsNULLable() bool {
 	return c.Relation != nil && c.Relation.RelKind == RelKindOrdinaryTable &&
 		c.HasNotNull == false
-- 
2.43.0


From 4ffa39ed49235745e13fd0d8be2a77fa8f76583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 066/102] fix: zero values of timestamptz and lseg columns

---
 internal/postgres/oid/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 5bd705d..63f1b4a 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -247,7 +247,7 @@ var TypeToZeroValue = map[OID]string{
 	JSONBArr:      `'{}'`,
 	// Line:          `''`,
 	LineArr:        `'{}'`,
-	LSeg:           `[(0,0),(0,0)]`,
+	LSeg:           `'[(0,0),(0,0)]'`,
 	LSegArr:        `'{}'`,
 	MACAddr:        `'00:00:00:00:00:00'`,
 	MACAddrArr:     `'{}'`,
@@ -272,7 +272,7 @@ var TypeToZeroValue = map[OID]string{
 	TimeArr:        `'{}'`,
 	Timestamp:      `'0001-01-01 00:00:00'`,
 	TimestampArr:   `'{}'`,
-	Timestamptz:    `'0001-01-01 00:00:00'`,
+	Timestamptz:    `'0001-01-01 00:00:00+00'`,
 	TimestamptzArr: `'{}'`,
 	Timetz:         `'00:00:00+00'`,
 	TimetzArr:      `'{}'`,
-- 
2.43.0


From 8ea41e35aa138b77b6ed9201cbd304c74d7d494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 067/102] fix: NULLIF and COALESCE with the column's zero value
 changed or failed values of string fields, and 64 bit and fractional numbers

---
 internal/generator/generator.go | 39 ++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a0b8c3d..70643cf 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -320,7 +320,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			var expr SQL.ValueExpr
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
-				expr = addNULLIFCallExpr(expr, fw.Column)
+				expr = addNULLIFCallExpr(expr, fw.Field, fw.Column)
 			} else {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
@@ -335,7 +335,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 		var expr SQL.ValueExpr
 		expr = makeParamSpec(g, fw.Field)
 		if fw.NeedsNULLIF() {
-			expr = addNULLIFCallExpr(expr, fw.Column)
+			expr = addNULLIFCallExpr(expr, fw.Field, fw.Column)
 		}
 		g.inputVals = append(g.inputVals, expr)
 	}
@@ -597,7 +597,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 		}
 		expr = ref
 		if fr.NeedsCOALESCE() {
-			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
+			expr = addCoalesceCallExpr(expr, fr.Field, fr.Column)
 		}
 		g.outputVals = append(g.outputVals, expr)
 	}
@@ -649,8 +649,8 @@ func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.Expr
 }
 
 // addCoalesceCallExpr
-func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.ValueExpr {
-	if len(val) > 0 {
+func addCoalesceCallExpr(x SQL.ValueExpr, f *analysis.FieldInfo, c *postgres.Column) SQL.ValueExpr {
+	if val := f.CoalesceValue; len(val) > 0 {
 		cast := SQL.CastExpr{}
 		cast.Expr = SQL.Literal{val}
 		cast.Type = c.Type.CastName()
@@ -661,7 +661,7 @@ func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.Va
 		return coalesce
 	}
 
-	if c.Type.OID == oid.UUID {
+	if c.Type.OID == oid.UUID || isTextOfOtherType(f, c) {
 		// NOTE(mkopriva): the following produces an expression that is
 		// useful when scanning UUID columns into plain string fields.
 		//
@@ -695,8 +695,8 @@ func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.Va
 }
 
 // addNULLIFCallExpr
-func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
-	if c.Type.OID == oid.UUID {
+func addNULLIFCallExpr(x SQL.ValueExpr, f *analysis.FieldInfo, c *postgres.Column) SQL.ValueExpr {
+	if c.Type.OID == oid.UUID || isTextOfOtherType(f, c) {
 		// NULLIF(x, '')::uuid
 		// - where x is $N (an ordinal parameter spec)
 		// NULLIF(x::text, '')::uuid
@@ -719,6 +719,12 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 		nullif := SQL.NULLIF{}
 		nullif.Value = x
 		nullif.Expr = SQL.Literal{lit}
+		switch c.Type.OID {
+		case oid.Int8, oid.Numeric, oid.Float4, oid.Money, oid.Bytea:
+			// the literal's type becomes the parameter's type, without
+			// the cast it would be integer, or text in case of bytea
+			nullif.Expr = SQL.Literal{lit + "::" + c.Type.CastName()}
+		}
 
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
@@ -728,6 +734,23 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 	return x
 }
 
+// isTextOfOtherType reports whether or not the given field holds the textual representation
+// of the values of the given column, i.e. whether the zero value of the field is not that of
+// the column's type.
+func isTextOfOtherType(f *analysis.FieldInfo, c *postgres.Column) bool {
+	if f.Type.Kind != analysis.TypeKindString && !f.Type.IsSliceKind(analysis.TypeKindByte) {
+		return false
+	}
+	if c.Type.Type == postgres.TypeTypeEnum {
+		return false
+	}
+	switch c.Type.OID {
+	case oid.Text, oid.VarChar, oid.BPChar, oid.Char, oid.Bytea:
+		return false
+	}
+	return true
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // Filter Specific Code Builders
 //
-- 
2.43.0


From 49f3f1e8cd316ab4827a68d746143da4ce1aae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 068/102] fix: pointers and named types were accepted for
 columns that need a converter, the generated code did not compile

---
 internal/postgres/postgres.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index f9b37e0..155d7fc 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -784,7 +784,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	key := OpKey{Left: coid, Right: coid, Name: oprname}
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
-		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil {
+		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp.accepts(ftyp) {
 			cond.Valuer = comp.valuer
 			return 0
 		}
@@ -801,7 +801,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			continue
 		}
 
-		if ce := typeCompatibility(c, typ, ftyp, false); ce != nil {
+		if ce := typeCompatibility(c, typ, ftyp, false); ce.accepts(ftyp) {
 			if ce.valuer == "" {
 				comp = ce
 				break
@@ -872,7 +872,7 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 				ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 			}
 
-			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil {
+			if comp := typeCompatibility(c, p.R, ftyp, false); comp.accepts(ftyp) {
 				cond.Valuer = comp.valuer
 				return 0
 			}
@@ -1287,6 +1287,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.scanner != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeRead
+			}
 			return comp.scanner, 0
 		}
 
@@ -1411,6 +1414,9 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.valuer != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeWrite
+			}
 			return comp.valuer, 0
 		}
 
@@ -1529,6 +1535,9 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.valuer != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeWrite
+			}
 			return comp.valuer, 0
 		}
 
@@ -2100,6 +2109,18 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 	return nil // not compatible
 }
 
+// accepts reports whether or not the generated code can pass
+// values of the given type as query arguments.
+func (e *compentry) accepts(t analysis.TypeInfo) bool {
+	return e != nil && (e.valuer == "" || isConvertible(t))
+}
+
+// isConvertible reports whether or not values of the given type can be passed to the converters
+// of the pgsql package, which accept neither pointers nor basic types that have another name.
+func isConvertible(t analysis.TypeInfo) bool {
+	return t.Kind != analysis.TypeKindPtr && !(t.Kind.IsBasic() && len(t.Name) > 0)
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From 7ee3425fd037544cf78cd58e8ead96c1a352eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 069/102] fix: lists whose elements cannot be compared to the
 column as they are were accepted for IN

---
 internal/postgres/postgres.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 155d7fc..3c95a29 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -767,6 +767,19 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		coid = oid.Text
 	}
 
+	if cond.Predicate.IsArray() {
+		// the elements are passed to the query one by one, as they are
+		if ftyp.Elem == nil {
+			return errColumnFieldComparison
+		}
+		if etyp := *ftyp.Elem; !etyp.ImplementsValuer() {
+			comp := typeCompatibility(c, ctyp, etyp, isLength1Type(c, cond.Column))
+			if comp == nil || comp.valuer != "" {
+				return errColumnFieldComparison
+			}
+		}
+	}
+
 	if cond.Predicate.IsArray() || cond.Quantifier > 0 {
 		// FIXME(mkopriva): this currently breaks for custom types like
 		// enums. Must figure out how to find the oid of a custom type...
-- 
2.43.0


From 73d12a22c5d3ab32cc56fcc1c45c0ac64a93bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 070/102] fix: XML of nil and empty values could not be read
 back

---
 pgsql/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/xml.go b/pgsql/xml.go
index 9550422..92c2b95 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -27,7 +27,7 @@ func (x xmltype) Scan(src interface{}) error {
 	}
 
 	pgReset(x.val)
-	if data == nil {
+	if len(data) == 0 { // NULL, or what Value makes of nil and empty values
 		return nil
 	}
 	return xml.Unmarshal(data, x.val)
-- 
2.43.0


From 41a23b96e07e22eeb8d1d3f30146e6806e8dc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 071/102] fix: json and xml columns took the bytes of *[]byte
 fields for a value to be encoded

---
 internal/postgres/postgres.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 3c95a29..f472645 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1258,7 +1258,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1284,7 +1284,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1392,7 +1392,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1411,7 +1411,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1512,7 +1512,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 				}
 
 				// []byte type? accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1532,7 +1532,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -2134,6 +2134,14 @@ func isConvertible(t analysis.TypeInfo) bool {
 	return t.Kind != analysis.TypeKindPtr && !(t.Kind.IsBasic() && len(t.Name) > 0)
 }
 
+// isByteSlice reports whether or not the given type is a []byte, or a pointer to it.
+func isByteSlice(t analysis.TypeInfo) bool {
+	if t.Kind == analysis.TypeKindPtr {
+		t = *t.Elem
+	}
+	return t.IsSliceKind(analysis.TypeKindByte)
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From 09624d29f9046e1e9db5a7627de137c10311e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 072/102] fix: complex fields were accepted for xml columns,
 encoding/xml rejects them

---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 99a7351..56dfcb7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2447,7 +2447,7 @@ func (t *TypeInfo) IsJSONIllegal() bool {
 
 // Indicates whether or not an instance of the type's Kind is illegal to be used with encoding/xml.
 func (t *TypeInfo) IsXMLIllegal() bool {
-	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap)
+	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap, TypeKindComplex64, TypeKindComplex128)
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6c4a0d7fc84a3e50879ff6d53f4577c08b2c89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 073/102] fix: readers of inet arrays

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From c971a57001ed4ba78a044cd8650957430ff47308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 074/102] fix: named string and bool types were accepted for
 columns whose values cannot be scanned into them

---
 internal/postgres/postgres.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index f472645..e777230 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1300,6 +1300,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.scanner == "" && !isScannable(col, f.Type) {
+				return "", errColumnFieldTypeRead
+			}
 			if comp.scanner != "" && !isConvertible(f.Type) {
 				return "", errColumnFieldTypeRead
 			}
@@ -2134,6 +2137,23 @@ func isConvertible(t analysis.TypeInfo) bool {
 	return t.Kind != analysis.TypeKindPtr && !(t.Kind.IsBasic() && len(t.Name) > 0)
 }
 
+// isScannable reports whether or not the driver's values of the given column
+// can be scanned, without a converter, into a field of the given type.
+func isScannable(col *Column, t analysis.TypeInfo) bool {
+	if t.Kind == analysis.TypeKindPtr {
+		t = *t.Elem
+	}
+
+	switch {
+	case t.Kind == analysis.TypeKindString && len(t.Name) > 0:
+		// what the driver decodes, database/sql converts to string only
+		return !col.Type.is(oid.Bool, oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8, oid.Timestamp, oid.Timestamptz)
+	case t.Kind == analysis.TypeKindBool && len(t.Name) > 0:
+		return col.Type.is(oid.Bool)
+	}
+	return true
+}
+
 // isByteSlice reports whether or not the given type is a []byte, or a pointer to it.
 func isByteSlice(t analysis.TypeInfo) bool {
 	if t.Kind == analysis.TypeKindPtr {
-- 
2.43.0


From 8d109a4740491e2a12d7829f934470f089ee1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 075/102] fix: integer fields were accepted for numeric columns
 with a scale, whose values cannot be scanned into them

---
 internal/postgres/postgres.go | 17 +++++++++++++++++
 internal/postgres/types.go    |  9 +++++++++
 2 files changed, 26 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e777230..5f58119 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1298,6 +1298,11 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 			return "XML", 0
 		}
 
+		// the text of a numeric with a scale cannot be scanned into integers
+		if col.HasScale() && isInteger(f.Type) {
+			return "", errColumnFieldTypeRead
+		}
+
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
 			if comp.scanner == "" && !isScannable(col, f.Type) {
@@ -2154,6 +2159,18 @@ func isScannable(col *Column, t analysis.TypeInfo) bool {
 	return true
 }
 
+// isInteger reports whether or not the given type, or
+// its base or element type, is one of the integer types.
+func isInteger(t analysis.TypeInfo) bool {
+	for t.Kind == analysis.TypeKindPtr || t.Kind == analysis.TypeKindSlice {
+		if isByteSlice(t) && t.Elem.IsByte {
+			return false // the text itself
+		}
+		t = *t.Elem
+	}
+	return t.Kind >= analysis.TypeKindInt && t.Kind <= analysis.TypeKindUint64
+}
+
 // isByteSlice reports whether or not the given type is a []byte, or a pointer to it.
 func isByteSlice(t analysis.TypeInfo) bool {
 	if t.Kind == analysis.TypeKindPtr {
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index c083337..59ad986 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -410,6 +410,15 @@ func (c *Column) IsNULLable() bool {
 		c.HasNotNull == false
 }
 
+// HasScale reports whether or not the column's type is numeric(p,s), with s > 0, or an array of it.
+func (c *Column) HasScale() bool {
+	if !c.Type.is(oid.Numeric, oid.NumericArr) || c.TypeMod < 4 {
+		return false
+	}
+	scale := (c.TypeMod - 4) & 0x7ff
+	return scale > 0 && scale <= 1000
+}
+
 func (f *FieldFilter) TreatAsNULLable() bool {
 	return !f.Field.Mode.TreatAsNotNULL() && !f.Column.HasNotNull
 }
-- 
2.43.0


From d6fd5ac6dc5270ec31f76e9ce29c70eb83be49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 076/102] fix: SIMILAR TO was accepted for bytea, and IS
 DISTINCT FROM for types that have no equality operator

---
 internal/postgres/enums.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index d0f763c..322a9c3 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -90,14 +90,14 @@ var predicateToOprname = map[analysis.Predicate]string{
 	analysis.IsMatchi:    "~*",
 	analysis.NotMatch:    "!~",
 	analysis.NotMatchi:   "!~*",
-	analysis.IsDistinct:  "<>",
+	analysis.IsDistinct:  "=",
 	analysis.NotDistinct: "=",
 	analysis.IsLike:      "~~",
 	analysis.NotLike:     "!~~",
 	analysis.IsILike:     "~~*",
 	analysis.NotILike:    "!~~*",
-	analysis.IsSimilar:   "~~",
-	analysis.NotSimilar:  "!~~",
+	analysis.IsSimilar:   "~",
+	analysis.NotSimilar:  "!~",
 	analysis.IsIn:        "=",
 	analysis.NotIn:       "<>",
 }
-- 
2.43.0


From 7b1e40890a5ecf1669b7933953b549f04f5cabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 077/102] fix: pattern matching was accepted for enum columns,
 which have no such operators

---
 internal/postgres/oid/types.go | 1 +
 internal/postgres/postgres.go  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 63f1b4a..76992c6 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -4,6 +4,7 @@ type OID uint32
 
 const (
 	Any            OID = 2276
+	AnyEnum        OID = 3500
 	Bit            OID = 1560
 	BitArr         OID = 1561
 	Bool           OID = 16
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5f58119..9204837 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -763,8 +763,8 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 	}
 
-	if ctyp.Type == TypeTypeEnum { // enum labels are basically text
-		coid = oid.Text
+	if ctyp.Type == TypeTypeEnum {
+		coid = oid.AnyEnum
 	}
 
 	if cond.Predicate.IsArray() {
-- 
2.43.0


From fb756ff44a846c2c164dae4af89cb4049f248521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 078/102] fix: defined []byte types were accepted for nullable
 json and xml columns, whose text cannot be scanned into them

---
 internal/postgres/postgres.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9204837..d7485ff 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1259,6 +1259,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 
 				// []byte type, accept as is
 				if isByteSlice(f.Type) {
+					if !isCoalescible(f, col) {
+						return "", errColumnFieldTypeRead
+					}
 					return "", 0
 				}
 
@@ -1285,6 +1288,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 
 				// []byte type, accept as is
 				if isByteSlice(f.Type) {
+					if !isCoalescible(f, col) {
+						return "", errColumnFieldTypeRead
+					}
 					return "", 0
 				}
 
@@ -2159,6 +2165,17 @@ func isScannable(col *Column, t analysis.TypeInfo) bool {
 	return true
 }
 
+// isCoalescible reports whether or not the given column's text, which takes the place of the
+// column if its NULLs are to be replaced, can be scanned into the given []byte field.
+// Text is not converted by database/sql to defined types.
+func isCoalescible(f *analysis.FieldInfo, col *Column) bool {
+	t := f.Type
+	if t.Kind == analysis.TypeKindPtr {
+		t = *t.Elem
+	}
+	return len(t.Name) == 0 || !FieldRead{Field: f, Column: col}.NeedsCOALESCE()
+}
+
 // isInteger reports whether or not the given type, or
 // its base or element type, is one of the integer types.
 func isInteger(t analysis.TypeInfo) bool {
-- 
2.43.0


From 9bfb4f17d3a5edcc52334e1cfdab3c19e1cd1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 079/102] fix: do not accept an index as the relation of a
 query

---
 internal/postgres/postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index d7485ff..040ea58 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1919,7 +1919,8 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		, ns.nspname
 	FROM pg_class c
 	LEFT JOIN pg_namespace ns ON ns.oid = c.relnamespace
-	WHERE c.oid = to_regclass($1)` //`
+	WHERE c.oid = to_regclass($1)
+	AND c.relkind NOT IN ('i', 'I', 'c')` //`
 	name := `"` + rid.Name + `"` // the generated SQL quotes the name as well
 	if len(rid.Qualifier) > 0 {
 		name = rid.Qualifier + "." + name
-- 
2.43.0


From 69ec671ab8651f4ec48f2a8e39998ba2fdabb54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 080/102] fix: reject literal expressions of a type that is not
 in the catalog

---
 internal/postgres/postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 040ea58..47db494 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2206,7 +2206,11 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	if err := row.Scan(&typoid); err != nil {
 		return nil, errPredicateLiteralExpr
 	}
-	return c.db.catalog.Types[typoid], 0
+	typ, ok := c.db.catalog.Types[typoid]
+	if !ok {
+		return nil, errPredicateLiteralExpr
+	}
+	return typ, 0
 }
 
 // isLength1Type reports whether or not the given column's type
-- 
2.43.0


From cbd62d83f6790bd014e330a0b04cf93d304eb1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 081/102] fix: do not accept functions that a WHERE clause
 cannot call

---
 internal/postgres/postgres.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 47db494..0d39a39 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1832,6 +1832,9 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.prokind = 'a'
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND p.prokind = 'f'
+		AND NOT p.proretset
+		AND pg_function_is_visible(p.oid)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
@@ -1845,6 +1848,10 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.proisagg
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND NOT p.proisagg
+		AND NOT p.proiswindow
+		AND NOT p.proretset
+		AND pg_function_is_visible(p.oid)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
-- 
2.43.0


From 4bf32ced0094c480c7591d884ce47b35efbf3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 082/102] fix: reject deferrable constraints as the arbiters of
 ON CONFLICT

---
 internal/postgres/postgres.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 0d39a39..61c46e8 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1093,7 +1093,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			}
 			exists = true
 
-			if !ind.IsUnique && !ind.IsPrimary {
+			if (!ind.IsUnique && !ind.IsPrimary) || !ind.IsImmediate {
 				continue
 			}
 			isunique = true
@@ -1120,7 +1120,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if ind == nil {
 			return c.dbError(dbError{Code: errOnConflictIndexUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
-		} else if !ind.IsUnique && !ind.IsPrimary {
+		} else if (!ind.IsUnique && !ind.IsPrimary) || !ind.IsImmediate {
 			return c.dbError(dbError{Code: errOnConflictIndexNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
 		}
@@ -1137,7 +1137,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if con == nil {
 			return c.dbError(dbError{Code: errOnConflictConstraintUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
-		} else if con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique {
+		} else if (con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique) || con.IsDeferrable {
 			return c.dbError(dbError{Code: errOnConflictConstraintNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
 		}
-- 
2.43.0


From 1714ac5a0e682dbb8524efcf1d5bc3fe3f14ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 083/102] fix: the columns INCLUDEd in an index are not part of
 its key

---
 internal/postgres/postgres.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 61c46e8..16abfa9 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2041,7 +2041,11 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
 	}
 
-	const selectRelationIndexes = `SELECT
+	numKeyAtts := "i.indnkeyatts"
+	if db.version < 110000 {
+		numKeyAtts = "i.indnatts"
+	}
+	selectRelationIndexes := `SELECT
 		c.oid
 		, c.relname
 		, i.indnatts
@@ -2051,6 +2055,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		, i.indimmediate
 		, i.indisready
 		, i.indkey
+		, ` + numKeyAtts + `
 		, pg_catalog.pg_get_indexdef(i.indexrelid)
 		, COALESCE(pg_catalog.pg_get_expr(i.indpred, i.indrelid, true), '')
 	FROM pg_index i
@@ -2065,6 +2070,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	defer rows.Close()
 
 	for rows.Next() {
+		var numKeyAtts int
 		ind := new(Index)
 		err := rows.Scan(
 			&ind.OID,
@@ -2076,6 +2082,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			&ind.IsImmediate,
 			&ind.IsReady,
 			(*int2vec)(&ind.Key),
+			&numKeyAtts,
 			&ind.Definition,
 			&ind.Predicate,
 		)
@@ -2084,6 +2091,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 				Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
 		}
 
+		ind.Key = ind.Key[:numKeyAtts] // without the INCLUDEd columns
 		ind.Expression = parseIndexExpr(ind.Definition)
 		rel.Indexes = append(rel.Indexes, ind)
 	}
-- 
2.43.0


From 6eddf7f34df1734a56bb9fd0311379dbaba41c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 084/102] fix: leave the sort order of an index out of the
 target of ON CONFLICT

---
 internal/postgres/postgres.go | 64 +++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 16abfa9..75b7202 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2286,38 +2286,44 @@ func parseIndexExpr(s string) (expr string) {
 	}
 
 	var (
-		r        rune
-		nested   int  // number nested parentheses
-		position int  // position in the input
-		quoted   bool // quoted text in the input
-		escaped  bool // escaped quote `''` in quoted text
+		nested int  // number of nested parentheses
+		quote  rune // the quotation mark of the quoted text, or 0
+		start  int  // start of the current index element
+		elems  []string
 	)
-	for position, r = range s {
-		if !quoted {
-			if r == '(' {
-				nested += 1 // nest
-			} else if r == ')' {
-				if nested == 0 {
-					break // done
-				}
-				nested -= 1 // unnest
-			} else if r == '\'' {
-				quoted = true
-			}
-		} else {
-			if r == '\'' && len(s) > position {
-				if s[position+1] == '\'' {
-					escaped = true
-				} else if escaped {
-					escaped = false
-				} else {
-					quoted = false
-				}
+	for i, r := range s {
+		switch {
+		case quote != 0:
+			// An escaped quote, i.e. a doubled one, ends the
+			// quoted text and immediately starts a new one.
+			if r == quote {
+				quote = 0
 			}
-		}
-	}
+		case r == '\'' || r == '"':
+			quote = r
+		case r == '(':
+			nested += 1
+		case r == ',' && nested == 0:
+			elems = append(elems, trimIndexElemOrder(s[start:i]))
+			start = i + 1
+		case r == ')' && nested > 0:
+			nested -= 1
+		case r == ')':
+			elems = append(elems, trimIndexElemOrder(s[start:i]))
+			return strings.Join(elems, ", ")
+		}
+	}
+	return strings.Join(elems, ", ")
+}
 
-	return s[:position]
+// trimIndexElemOrder removes the sort order from the given index
+// element; ON CONFLICT does not allow it in its target.
+func trimIndexElemOrder(s string) string {
+	s = strings.TrimSpace(s)
+	for _, order := range []string{" NULLS FIRST", " NULLS LAST", " DESC"} {
+		s = strings.TrimSuffix(s, order)
+	}
+	return s
 }
 
 type int2vec []int16 // helper type
-- 
2.43.0


From 0c02fc3c72d647cd26f3fd2d34ce0dee7207b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 085/102] fix: check modifier functions against the overload
 that will be called

---
 internal/postgres/postgres.go | 57 +++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 75b7202..e7ba2d3 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -847,13 +847,13 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 	type pair struct{ L, R *Type }
 
 	pairs := []pair{}
-	for _, l := range procs {
+	for _, l := range procsByArgType(procs, cond.Column.Type.OID) {
 		lrettyp, ok := c.db.catalog.Types[l.RetType]
 		if !ok {
 			continue
 		}
 
-		for _, r := range procs {
+		for _, r := range procsByUnknownArg(c, procs) {
 			rrettyp, ok := c.db.catalog.Types[r.RetType]
 			if !ok {
 				continue
@@ -889,11 +889,62 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 				cond.Valuer = comp.valuer
 				return 0
 			}
+
+			// A value that needs no conversion to be passed to an overload of the same
+			// category will be accepted by the one that will be called as well, e.g.
+			// an int passed to abs($1), which resolves to abs(double precision).
+			for _, r := range procs {
+				rargtyp, ok := c.db.catalog.Types[r.ArgType]
+				if !ok || rargtyp.Category != p.R.Category {
+					continue
+				}
+				if comp := typeCompatibility(c, rargtyp, ftyp, false); comp.accepts(ftyp) && comp.valuer == "" {
+					return 0
+				}
+			}
 		}
 	}
 	return errProcedureUnknown
 }
 
+// procsByArgType returns those of the given overloaded functions that may
+// be called with an argument of the given type. An exact match always wins.
+func procsByArgType(procs []*Proc, argtyp oid.OID) []*Proc {
+	for _, p := range procs {
+		if p.ArgType == argtyp {
+			return []*Proc{p}
+		}
+	}
+	return procs
+}
+
+// procsByUnknownArg returns those of the given overloaded functions that may
+// be called with a parameter placeholder, i.e. with an argument whose type is
+// unknown. In such a case PostgreSQL favors the functions that accept a string,
+// and, within a type category, those that accept the category's preferred type.
+func procsByUnknownArg(c *checker, procs []*Proc) []*Proc {
+	byCategory := make(map[TypeCategory][]*Proc)
+	for _, p := range procs {
+		category := TypeCategoryPseudo
+		if typ, ok := c.db.catalog.Types[p.ArgType]; ok {
+			category = typ.Category
+		}
+		byCategory[category] = append(byCategory[category], p)
+	}
+
+	if list, ok := byCategory[TypeCategoryString]; ok {
+		procs = list
+	} else if len(byCategory) > 1 {
+		return nil // ambiguous
+	}
+	for _, p := range procs {
+		if typ, ok := c.db.catalog.Types[p.ArgType]; ok && typ.IsPreferred {
+			return []*Proc{p}
+		}
+	}
+	return procs
+}
+
 // typeCheckColumnConditional
 //
 // CHECKLIST:
@@ -1616,7 +1667,7 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 	// if pg_cast says ok, accept.
 	key := CastKey{Target: target, Source: source}
 	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
+		return cast.Context == CastContextImplicit
 	}
 	return false
 }
-- 
2.43.0


From 90bd9351447d2d1177db108cd8f05eb1b571e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 086/102] fix: reject empty and duplicate lists of columns

---
 internal/postgres/errors.go   | 12 ++++++++++
 internal/postgres/postgres.go | 44 +++++++++++++++++++++++++++++++----
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 015c0f7..f3612d0 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -50,6 +50,8 @@ const (
 	errColumnQualifierUnknown
 	errColumnJoinTarget
 	errColumnComparison
+	errColumnDuplicate
+	errColumnListEmpty
 	// predicate errors
 	errPredicateOperandQuantifier
 	errPredicateOperandArray
@@ -435,6 +437,16 @@ Column error templates
 	` with the "{{R .Field.Name}}" field's type "{{R .Field.Type}}".
 {{ end }}
 
+{{ define "` + errColumnDuplicate.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is already referenced by another field.
+{{ end }}
+
+{{ define "` + errColumnListEmpty.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to read or write."}}
+    No field of "{{R .Field.Definition}}" can be used to read from, or to write to, the relation "{{R .Rel.Name}}".
+{{ end }}
+
 {{ define "` + errColumnTextSearchType.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Bad column type for text search."}}
     The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is of type "{{R .Col.Type.GetNameFmt}}".
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e7ba2d3..b0f1b4c 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -283,6 +283,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryReturnDirective,
 		typeCheckQueryResultField,
 		typeCheckQueryRelField,
+		typeCheckQueryColumnLists,
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
@@ -303,11 +304,6 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		// on/off...?)
 	}
 
-	// TODO(mkopriva): if this is an insert or update (i.e. write) the column
-	// generated from the field tags cannot contain duplicate columns. Conversely
-	// if this is a read query (select, or I,U,D with returning) the columns do
-	// not have to be unique.
-
 	// TODO(mkopriva): if this is an UPDATE but none of the columns associated
 	// with the available fields constitute a complete primary key of the table,
 	// an error should be returned as then there's no way to properly match the
@@ -497,6 +493,44 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryColumnLists checks the lists of columns that are to be read and written by the query.
+//
+// CHECKLIST:
+//
+//	✅ A query that reads or writes records MUST read or write at least one column.
+//	✅ A column MUST NOT be written more than once, whereas the columns
+//	   that are read do not have to be unique.
+func typeCheckQueryColumnLists(c *checker, qs *analysis.QueryStruct) error {
+	if qs.Rel == nil || qs.IsSelectCountOrExists() {
+		return nil
+	}
+
+	isWrite := qs.Kind == analysis.QueryKindInsert || qs.Kind == analysis.QueryKindUpdate
+	if isWrite && !qs.Rel.IsDirective && len(c.res.Writes) == 0 {
+		return c.dbError(dbError{Code: errColumnListEmpty, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	isRead := qs.Kind == analysis.QueryKindSelect || qs.Return != nil || qs.Result != nil
+	if isRead && len(c.res.Reads) == 0 {
+		return c.dbError(dbError{Code: errColumnListEmpty, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+
+	lists := [][]*FieldWrite{c.res.Writes}
+	if qs.IsUpdateSlice() {
+		lists = append(lists, c.res.PKeys)
+	}
+	for _, list := range lists {
+		seen := make(map[*Column]bool)
+		for _, w := range list {
+			if seen[w.Column] {
+				return c.dbError(dbError{Code: errColumnDuplicate, Rel: relInfo{Relation: c.rel},
+					Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
+			}
+			seen[w.Column] = true
+		}
+	}
+	return nil
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
-- 
2.43.0


From 25a910c62c60c391af6d372751d51235f8739cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 087/102] fix: do not accept comparisons for which there is no
 operator

---
 internal/postgres/postgres.go | 49 ++++++++++++++++++++++++++++++++++-
 internal/postgres/types.go    |  6 +++--
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index b0f1b4c..9625615 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -880,6 +880,12 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 	//
 	type pair struct{ L, R *Type }
 
+	lexpr := fmt.Sprintf("%s(NULL::%s)", cond.FuncName, cond.Column.Type.CastName())
+	rexpr := fmt.Sprintf("%s($1)", cond.FuncName)
+	if cond.Quantifier == 0 && !isValidExpr(c, comparisonExpr(lexpr, cond.Predicate, rexpr)) {
+		return errProcedureUnknown
+	}
+
 	pairs := []pair{}
 	for _, l := range procsByArgType(procs, cond.Column.Type.OID) {
 		lrettyp, ok := c.db.catalog.Types[l.RetType]
@@ -1086,6 +1092,7 @@ func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relati
 //	✅ ACCEPT if the LHS type belongs to the string category and the RHS type is unknown.
 //	✅ ACCEPT if the combination of LHS type, RHS type, and the predicate has
 //	   an entry in the pg_operator table.
+//	✅ REJECT if PostgreSQL itself cannot resolve the operator.
 func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predicate, qua analysis.Quantifier) dbErrorCode {
 	if pred.IsArray() || qua > 0 {
 		if rtyp.Category != TypeCategoryArray {
@@ -1094,7 +1101,17 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 			}
 			return errPredicateOperandQuantifier
 		}
-		rtyp = c.db.catalog.Types[rtyp.Elem]
+		if rtyp = c.db.catalog.Types[rtyp.Elem]; rtyp == nil {
+			return errColumnComparison
+		}
+	}
+
+	rexpr := "NULL"
+	if rtyp.OID != oid.Unknown {
+		rexpr += "::" + rtyp.CastName()
+	}
+	if !isValidExpr(c, comparisonExpr("NULL::"+ltyp.CastName(), pred, rexpr)) {
+		return errColumnComparison
 	}
 
 	if ltyp.OID == rtyp.OID {
@@ -1800,6 +1817,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 	cat.Casts = make(map[CastKey]*Cast)
 	cat.Procs = make(map[string][]*Proc)
 	cat.Relations = make(map[analysis.RelIdent]*Relation)
+	cat.exprs = make(map[string]bool)
 
 	const selectTypes = `SELECT
 		t.oid
@@ -2313,6 +2331,35 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	return typ, 0
 }
 
+// comparisonExpr returns an expression that compares the given ones.
+func comparisonExpr(lhs string, pred analysis.Predicate, rhs string) string {
+	op := predicateToOprname[pred]
+	switch pred {
+	case analysis.IsSimilar:
+		op = "SIMILAR TO"
+	case analysis.NotSimilar:
+		op = "NOT SIMILAR TO"
+	}
+	return lhs + " " + op + " " + rhs
+}
+
+// isValidExpr reports whether or not the given expression makes sense to the
+// database server. The expression may use the parameter $1, it is not evaluated.
+func isValidExpr(c *checker, expr string) bool {
+	c.db.catalog.Lock()
+	defer c.db.catalog.Unlock()
+	if ok, seen := c.db.catalog.exprs[expr]; seen {
+		return ok
+	}
+
+	stmt, err := c.db.Prepare("SELECT " + expr)
+	if err == nil {
+		stmt.Close()
+	}
+	c.db.catalog.exprs[expr] = (err == nil)
+	return err == nil
+}
+
 // isLength1Type reports whether or not the given column's type
 // is a "length 1" type, i.e. char(1), varchar(1), or bit(1)[], etc.
 func isLength1Type(c *checker, col *Column) bool {
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 59ad986..a8a28b7 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -157,8 +157,10 @@ type (
 
 		// populated by loadRelation
 		Relations map[analysis.RelIdent]*Relation
-		// sync.RWMutex is necessary to be used only for the Relations map,
-		// the rest is read-only once initialized.
+		// populated by isValidExpr
+		exprs map[string]bool
+		// sync.RWMutex is necessary to be used only for the Relations and exprs
+		// maps, the rest is read-only once initialized.
 		sync.RWMutex
 	}
 
-- 
2.43.0


From 6fac210990d9e03aed0c02558c9c7b9562e4d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 088/102] fix: do not accept ORDER BY columns whose type has no
 order

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index f3612d0..f0db385 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -51,6 +51,7 @@ const (
 	errColumnJoinTarget
 	errColumnComparison
 	errColumnDuplicate
+	errColumnOrderType
 	errColumnListEmpty
 	// predicate errors
 	errPredicateOperandQuantifier
@@ -442,6 +443,12 @@ Column error templates
     The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is already referenced by another field.
 {{ end }}
 
+{{ define "` + errColumnOrderType.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Bad column type for ordering."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is of type "{{R .Col.Type.GetNameFmt}}".
+    - the values of that type have no order.
+{{ end }}
+
 {{ define "` + errColumnListEmpty.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "No columns to read or write."}}
     No field of "{{R .Field.Definition}}" can be used to read from, or to write to, the relation "{{R .Rel.Name}}".
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9625615..2f8cfe7 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -366,9 +366,14 @@ func typeCheckQueryOrderByDirective(c *checker, qs *analysis.QueryStruct) error
 	}
 
 	for _, item := range qs.OrderBy.Items {
-		if _, ecode := findColumn(c, item.ColIdent); ecode > 0 {
+		col, ecode := findColumn(c, item.ColIdent)
+		if ecode > 0 {
 			return c.dbError(dbError{Code: ecode, Col: colInfo{Id: item.ColIdent}}, qs.OrderBy)
 		}
+		if !isValidExpr(c, "1 ORDER BY NULL::"+col.Type.CastName()) {
+			return c.dbError(dbError{Code: errColumnOrderType,
+				Col: colInfo{Id: item.ColIdent, Column: col}}, qs.OrderBy)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From c1f4bc71bf119991fd2de85d3e5f285c29014d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 089/102] fix: convert primary key fields that are used only in
 the WHERE clause

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 70643cf..50e0c18 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -425,6 +425,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
-- 
2.43.0


From 395f99e091b04cc11b74641b44c5160f11df5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 090/102] fix: cast bytea primary keys in the VALUES list of a
 slice update

---
 internal/generator/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 50e0c18..b865594 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -342,7 +342,12 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	if qs.IsUpdateSlice() {
 		for _, fw := range g.inputPKeys {
-			g.inputValsPKeys = append(g.inputValsPKeys, makeParamSpec(g, fw.Field))
+			var expr SQL.ValueExpr = makeParamSpec(g, fw.Field)
+			if fw.Column.Type.OID == oid.Bytea {
+				// without the cast the parameter is text, which cannot hold every []byte
+				expr = SQL.CastExpr{Expr: expr, Type: fw.Column.Type.CastName()}
+			}
+			g.inputValsPKeys = append(g.inputValsPKeys, expr)
 		}
 	}
 }
-- 
2.43.0


From 82b17d1685317ebcf8ca6736bc0b3038262da3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 091/102] fix: cast nullable enum values in the VALUES list of
 a slice update

---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b865594..deae7b0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -321,7 +321,8 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Field, fw.Column)
-			} else {
+			}
+			if _, ok := expr.(SQL.OrdinalParameterSpec); ok {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
 				cast.Type = fw.Column.Type.CastName()
-- 
2.43.0


From e3a36fd33e6b34fcc4f42a9d9d694896411bb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 092/102] fix: initialise nil pointer fields that the returned
 columns are scanned into

---
 internal/generator/generator.go | 34 ++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index deae7b0..5279e38 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -535,14 +535,27 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryOutputInitFields
 func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
-	if canSkipRelInit(qs) {
-		return
-	}
-
 	// done is used to keep track of pointer fields whose
 	// initialization statements have already been created
 	var done = make(map[string]bool)
 
+	isInput := canSkipRelInit(qs)
+	if isInput {
+		// The output goes into the input records, the pointer fields
+		// through which they have been read must already be set.
+		inputs := append([]*postgres.FieldWrite{}, g.info.Writes...)
+		if qs.IsUpdateWithPKeys() {
+			inputs = append(inputs, g.inputPKeys...)
+		}
+		for _, fw := range inputs {
+			key := ""
+			for _, node := range fw.Field.Selector {
+				key += node.Name + "."
+				done[key] = done[key] || !canUseDefault(qs, fw.Field)
+			}
+		}
+	}
+
 	for _, fr := range g.info.Reads {
 		key := "" // key for the done map
 
@@ -561,7 +574,18 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
 				init.Rhs = GO.CallNewExpr{typeNode}
-				g.outputInit = append(g.outputInit, init)
+				if isInput {
+					// produce:
+					//	if <field> == nil {
+					//		<field> = new(T)
+					//	}
+					ifnil := GO.IfStmt{}
+					ifnil.Cond = GO.BinaryExpr{Op: GO.BinaryEql, X: fx, Y: GO.Ident{"nil"}}
+					ifnil.Body = GO.BlockStmt{List: []GO.StmtNode{init}}
+					g.outputInit = append(g.outputInit, ifnil)
+				} else {
+					g.outputInit = append(g.outputInit, init)
+				}
 
 				done[key] = true
 			}
-- 
2.43.0


From cc5a4a6da0a357af348425b62d1a79a8d00b4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 093/102] fix: import the packages of filter value converters
 under local names

---
 internal/generator/generator.go | 39 +++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5279e38..1af68c9 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,10 +1,13 @@
 package generator
 
 import (
+	"go/token"
 	"io"
 	"log"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/frk/gosql/internal/analysis"
 	"github.com/frk/gosql/internal/config"
@@ -245,7 +248,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{addimport(g.file, "context", "").name, "Context"})
+		ctxType := GO.TypeNode(GO.QualifiedIdent{addimport(g.file, "context", "context").name, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -2207,11 +2210,11 @@ func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
 func addimport(f *file, path, name string) *impspec {
-	if name == "" {
-		name = path
-		if i := strings.LastIndexByte(name, '/'); i > -1 {
-			name = name[i+1:]
-		}
+	// If the package's name isn't known it cannot be assumed to be
+	// the last segment of the path, import it under a local name.
+	local := (name == "")
+	if local {
+		name = pathToIdent(path)
 	}
 
 	var namesake *impspec
@@ -2227,7 +2230,7 @@ func addimport(f *file, path, name string) *impspec {
 		}
 	}
 
-	imp := &impspec{path: path, name: name}
+	imp := &impspec{path: path, name: name, local: local}
 	if namesake != nil {
 		namesake.num += 1
 		imp.name = name + strconv.Itoa(namesake.num)
@@ -2245,6 +2248,28 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+var rxMajorVersion = regexp.MustCompile(`^v[0-9]+$`)
+
+// pathToIdent returns a valid identifier for the package with the given import path.
+func pathToIdent(path string) string {
+	segments := strings.Split(path, "/")
+	name := segments[len(segments)-1]
+	if len(segments) > 1 && rxMajorVersion.MatchString(name) {
+		name = segments[len(segments)-2]
+	}
+
+	name = strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, name)
+	if !token.IsIdentifier(name) {
+		name = "pkg" + name
+	}
+	return name
+}
+
 // isTaken reports whether or not the given name cannot be used as the name of an import.
 func (f *file) isTaken(name string) bool {
 	for _, imp := range f.impset {
-- 
2.43.0


From f93922e02c33aa3cb47c6be59288175ae46f8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 094/102] fix: accept every import path in the identifiers of
 filter value converters

---
 internal/config/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/config/types.go b/internal/config/types.go
index 626b91a..37f9316 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -236,7 +236,7 @@ func (id ObjectIdent) String() string {
 	return v
 }
 
-var rxObjId = regexp.MustCompile(`^\w[\w\.-/]*\w\.[A-Za-z_]\w*$`)
+var rxObjId = regexp.MustCompile(`^\w(?:[\w\.~+/-]*\w)?\.[A-Za-z_]\w*$`)
 
 // Set implements the flag.Value interface.
 func (id *ObjectIdent) Set(value string) error {
-- 
2.43.0


From bd9fbd044572f7e300c9832ae7142e130c7d5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 095/102] fix: reject columns of joined relations in Return,
 Force and Default

Their qualifiers were ignored: with a second relation joined, the columns of
the target relation that have the same names were used instead.
---
 internal/postgres/postgres.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 2f8cfe7..b33cd29 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -325,6 +325,9 @@ func typeCheckQueryForceDirective(c *checker, qs *analysis.QueryStruct) error {
 	for _, cid := range qs.Force.Items {
 		if _, ecode := findColumn(c, cid); ecode > 0 {
 			return c.dbError(dbError{Code: ecode, Col: colInfo{Id: cid}}, qs.Force)
+		} else if c.relMap[cid.Qualifier] != c.rel {
+			return c.dbError(dbError{Code: errColumnUnknown,
+				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Force)
 		}
 	}
 	return nil
@@ -344,7 +347,7 @@ func typeCheckQueryDefaultDirective(c *checker, qs *analysis.QueryStruct) error
 	}
 
 	for _, cid := range qs.Default.Items {
-		if col := findRelColumn(c.rel, cid.Name); col == nil {
+		if col := findRelColumn(c.rel, cid.Name); col == nil || c.relMap[cid.Qualifier] != c.rel {
 			return c.dbError(dbError{Code: errColumnUnknown,
 				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
 		} else if !col.HasDefault {
@@ -1785,26 +1788,22 @@ func findRelConstraint(rel *Relation, name string) *Constraint {
 // findQueryColumnField finds and returns the *analysis.FieldInfo of the target data type's
 // field that is tagged with the column identified by the given ColIdent. If strict
 // is true, findQueryColumnField will also check whether or not the column actually exists.
-//
-// NOTE(mkopriva): currently the findQueryColumnField method returns fields matched
-// by just the column's name, i.e. the qualifiers are ignored, this means that
-// one could pass in two different cids with the same name and the method
-// would return the same field.
 func findQueryColumnField(c *checker, qs *analysis.QueryStruct, cid analysis.ColIdent, strict bool) (*analysis.FieldInfo, dbErrorCode) {
+	if strict {
+		if _, ecode := findColumn(c, cid); ecode > 0 {
+			return nil, ecode
+		}
+	}
 	for _, f := range qs.Rel.Type.Fields {
-		if f.ColIdent.Name == cid.Name {
-			if strict {
-				if _, ecode := findColumn(c, cid); ecode > 0 {
-					return nil, ecode
-				}
-			}
+		// the qualifier of the target relation may be omitted
+		if f.ColIdent.Name == cid.Name && c.relMap[f.ColIdent.Qualifier] == c.relMap[cid.Qualifier] {
 			return f, 0
 		}
 	}
 
-	// NOTE(mkopriva): this should be caught by anlysis.
-	panic("unreachable")
-	return nil, 0
+	// analysis ensures that there is a field for the column's
+	// name, but it may be one for a column of another relation
+	return nil, errColumnUnknown
 }
 
 // //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 53bf17326d554ee01a1d97283abe234e7bd9cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 096/102] fix: generate joins that are declared without a
 condition

---
 internal/generator/generator.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1af68c9..93901b7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1365,17 +1365,27 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 			}
 		}
 
-		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
-		searchCond.ListStyle = false
-
 		join := SQL.TableJoin{}
 		join.Type = sqlJoinType[dir.JoinType]
 		join.Rel = makeRelIdent(dir.RelIdent)
-		join.Cond.SearchCondition = searchCond
+		if len(conds) > 0 {
+			searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
+			searchCond.ListStyle = false
+			join.Cond.SearchCondition = searchCond
+		} else {
+			join.Cond.SearchCondition = trueExpr{}
+		}
 		g.tableJoinSlice = append(g.tableJoinSlice, join)
 	}
 }
 
+// trueExpr is the condition of the joins that were declared without one.
+type trueExpr struct {
+	SQL.ColumnReference // implements SQL.BoolValueExpr
+}
+
+func (trueExpr) Walk(w *ast.Writer) { w.Write("TRUE") }
+
 // makeSQLBoolValueExprList builds and returns an SQL.BoolValueExprList.
 func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, sx GO.SelectorExpr, parenthesized bool) (list SQL.BoolValueExprList, count int) {
 	var boolean analysis.Boolean
-- 
2.43.0


From 117b5e55ac6268a9ad23f523c97e212a1af85d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 097/102] fix: keep the conditions of cross joins

---
 internal/generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 93901b7..343eb25 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1372,6 +1372,11 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 			searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
 			searchCond.ListStyle = false
 			join.Cond.SearchCondition = searchCond
+
+			// a cross join with a condition is an inner join
+			if dir.JoinType == analysis.JoinTypeCross {
+				join.Type = SQL.JoinInner
+			}
 		} else {
 			join.Cond.SearchCondition = trueExpr{}
 		}
-- 
2.43.0


From b0e8be5daabc09dc4137cdd66ddeba748ec998c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:43 +0000
Subject: [PATCH 098/102] fix: the columns of partitioned and foreign tables
 can be NULL too

---
 internal/postgres/enums.go | 10 ++++++++++
 internal/postgres/types.go |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index 322a9c3..9a771a9 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -20,6 +20,16 @@ const (
 	RelKindPartitionedIndex RelKind = "I"
 )
 
+// isTable reports whether or not the relation kind is that of a table, ordinary, partitioned, or
+// foreign, i.e. of a relation whose columns can have a NOT NULL constraint.
+func (k RelKind) isTable() bool {
+	switch k {
+	case RelKindOrdinaryTable, RelKindPartitionedTable, RelKindForeignTable:
+		return true
+	}
+	return false
+}
+
 // postgres type types
 type TypeType string
 
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a8a28b7..7f34913 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -408,8 +408,7 @@ func (t *Type) CastName() string {
 }
 
 func (c *Column) IsNULLable() bool {
-	return c.Relation != nil && c.Relation.RelKind == RelKindOrdinaryTable &&
-		c.HasNotNull == false
+	return c.Relation != nil && c.Relation.RelKind.isTable() && c.HasNotNull == false
 }
 
 // HasScale reports whether or not the column's type is numeric(p,s), with s > 0, or an array of it.
-- 
2.43.0


From a24f8ccb7efc3a8216c56841b6d060e18c823cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 099/102] fix: reject structs that are descended into from
 within themselves

---
 internal/analysis/analysis.go | 8 ++++++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 56dfcb7..fb0f526 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -598,6 +598,14 @@ stackloop:
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
 				loop2.typ = &f.Type
+
+				// A struct that contains itself would be descended without end.
+				for _, parent := range stack {
+					if types.Identical(parent.styp, loop2.styp) {
+						return a.error(errRecursiveField, fvar, "", ftag, "", "")
+					}
+				}
+
 				loop2.pfx = loop.pfx + strings.TrimPrefix(sqltag, ">")
 
 				// Allocate selector of the appropriate size an copy it.
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 3cd6e62..d3df8e3 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -240,6 +240,7 @@ const (
 	errColumnFieldUnknown
 	errMissingRelationDirective
 	errEmptyNestedWhere
+	errRecursiveField
 )
 
 var error_template_string = `
@@ -444,6 +445,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Add at least one condition to {{R .FieldName}}, or remove it.
 {{ end }}
 
+{{ define "` + errRecursiveField.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Recursive struct field."}}
+    The fields of {{R .FieldName}} cannot be used in {{Wb .TargetName}} because its type {{R .FieldTypeShort}} contains itself.
+    {{Wb "FIX:"}} Remove the {{Ci ">"}} from the field's {{Ci "sql"}} tag.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From eb0806a4c71b64aa6cbb573dc999dec2b51e573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 100/102] fix: the analysis of recursive types ends

---
 internal/analysis/analysis.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index fb0f526..de7d0ed 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -676,6 +676,12 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
+	return analyzeTypeInfoOf(a, tt, nil)
+}
+
+// analyzeTypeInfoOf does the work of analyzeTypeInfo. The parents are the named types
+// that are already being analyzed, a recursive type's element info ends with them.
+func analyzeTypeInfoOf(a *analysis, tt types.Type, parents []*types.Named) (typ TypeInfo, base types.Type) {
 	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
@@ -694,6 +700,15 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 		typ.IsXMLMarshaler = typesutil.ImplementsXMLMarshaler(named)
 		typ.IsXMLUnmarshaler = typesutil.ImplementsXMLUnmarshaler(named)
 		base = named.Underlying()
+
+		for _, parent := range parents {
+			if types.Identical(parent, named) {
+				typ.Kind = analyzeTypeKind(base)
+				typ.Key, typ.Elem = new(TypeInfo), new(TypeInfo)
+				return typ, base
+			}
+		}
+		parents = append(parents[:len(parents):len(parents)], named)
 	}
 
 	typ.Kind = analyzeTypeKind(base)
@@ -704,19 +719,19 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 		typ.IsRune = T.Name() == "rune"
 		typ.IsByte = T.Name() == "byte"
 	case *types.Slice:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoOf(a, T.Elem(), parents)
 		typ.Elem = &elem
 	case *types.Array:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoOf(a, T.Elem(), parents)
 		typ.Elem = &elem
 		typ.ArrayLen = T.Len()
 	case *types.Map:
-		key, _ := analyzeTypeInfo(a, T.Key())
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		key, _ := analyzeTypeInfoOf(a, T.Key(), parents)
+		elem, base = analyzeTypeInfoOf(a, T.Elem(), parents)
 		typ.Key = &key
 		typ.Elem = &elem
 	case *types.Pointer:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoOf(a, T.Elem(), parents)
 		typ.Elem = &elem
 	case *types.Interface:
 		typ.IsEmptyInterface = typesutil.IsEmptyInterface(T)
-- 
2.43.0


From f76152a9983c4e61f491345755ff2ad7c449a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 101/102] fix: reject generic target types

---
 internal/analysis/analysis.go | 5 +++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index de7d0ed..d1f725b 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -114,6 +114,11 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 		a.info.FieldNames = append(a.info.FieldNames, structType.Field(i).Name())
 	}
 
+	// methods of a generic type cannot be generated
+	if named.TypeParams().Len() > 0 {
+		return nil, a.error(errGenericTarget, nil, "", "", "", "")
+	}
+
 	if strings.HasPrefix(strings.ToLower(named.Obj().Name()), "filter") {
 		s, err := analyzeFilterStruct(a, structType)
 		if err != nil {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index d3df8e3..f35dbe6 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -241,6 +241,7 @@ const (
 	errMissingRelationDirective
 	errEmptyNestedWhere
 	errRecursiveField
+	errGenericTarget
 )
 
 var error_template_string = `
@@ -451,6 +452,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Remove the {{Ci ">"}} from the field's {{Ci "sql"}} tag.
 {{ end }}
 
+{{ define "` + errGenericTarget.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Generic type."}}
+    The {{R .TargetName}} struct type {{Wu "MUST NOT"}} have type parameters.
+    {{Wb "FIX:"}} Remove the type parameters from {{R .TargetName}}.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From ea7bb9202fb94aa6887418c3fc0a07f726cddd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 102/102] fix: keep the type arguments in the names of
 instances of generic types

---
 internal/analysis/analysis.go   | 52 +++++++++++++++++++++++++++++++--
 internal/analysis/types.go      |  4 +++
 internal/generator/generator.go | 36 +++++++++++++++++++----
 3 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d1f725b..3657751 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -521,6 +521,10 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 			rt.Base.PkgLocal = pkg.Name()
 		}
 		rt.Base.IsImported = isImportedType(a, named)
+		rt.Base.TypeArgs = analyzeTypeArgs(a, named, nil)
+		if !rt.Base.hasLiteral() {
+			return a.error(errBadRelType, field, "", "", "", "")
+		}
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
 	}
@@ -633,8 +637,12 @@ stackloop:
 				node.TypePkgPath = typ.PkgPath
 				node.TypePkgName = typ.PkgName
 				node.TypePkgLocal = typ.PkgLocal
+				node.TypeArgs = typ.TypeArgs
 				node.IsImported = typ.IsImported
 				node.IsPointer = (f.Type.Kind == TypeKindPtr)
+				if node.IsPointer && !typ.hasLiteral() {
+					return a.error(errBadRelType, fvar, "", ftag, "", "")
+				}
 				node.Mode = parseFieldMode(tag)
 				loop2.selector = append(loop2.selector, node)
 
@@ -714,6 +722,7 @@ func analyzeTypeInfoOf(a *analysis, tt types.Type, parents []*types.Named) (typ
 			}
 		}
 		parents = append(parents[:len(parents):len(parents)], named)
+		typ.TypeArgs = analyzeTypeArgs(a, named, parents)
 	}
 
 	typ.Kind = analyzeTypeKind(base)
@@ -750,6 +759,15 @@ func analyzeTypeInfoOf(a *analysis, tt types.Type, parents []*types.Named) (typ
 	return typ, base
 }
 
+// analyzeTypeArgs analyzes the type arguments of the given type, if it's an instance of a generic type.
+func analyzeTypeArgs(a *analysis, named *types.Named, parents []*types.Named) (out []TypeInfo) {
+	for i := 0; i < named.TypeArgs().Len(); i++ {
+		arg, _ := analyzeTypeInfoOf(a, named.TypeArgs().At(i), parents)
+		out = append(out, arg)
+	}
+	return out
+}
+
 // analyzeIteratorInterface [ ... ]
 func analyzeIteratorInterface(a *analysis, rt *RelType, iface *types.Interface, named *types.Named) (out *types.Named, isValid bool) {
 	if iface.NumExplicitMethods() != 1 {
@@ -2327,12 +2345,42 @@ func (t *TypeInfo) QualifiedLiteral(qualifier func(*TypeInfo) string) (lit Liter
 	return t.qualifiedLiteral(qualifier)
 }
 
+// hasLiteral reports whether or not the type arguments of the type, if
+// there are any, can be represented by a literal.
+func (t *TypeInfo) hasLiteral() bool {
+	for i := range t.TypeArgs {
+		_, ok := t.TypeArgs[i].qualifiedLiteral(func(t *TypeInfo) string {
+			if t.IsImported {
+				return t.PkgName
+			}
+			return ""
+		})
+		if !ok {
+			return false
+		}
+	}
+	return true
+}
+
 func (t *TypeInfo) qualifiedLiteral(qualifier func(*TypeInfo) string) (lit LiteralType, ok bool) {
 	if len(t.Name) > 0 {
+		lit, ok = LiteralType(t.Name), true
 		if q := qualifier(t); len(q) > 0 {
-			return LiteralType(q + "." + t.Name), ast.IsExported(t.Name)
+			lit, ok = LiteralType(q+"."+t.Name), ast.IsExported(t.Name)
+		}
+		for i := range t.TypeArgs {
+			arg, argok := t.TypeArgs[i].qualifiedLiteral(qualifier)
+			if i == 0 {
+				lit += "["
+			} else {
+				lit += ", "
+			}
+			lit, ok = lit+arg, ok && argok
+		}
+		if len(t.TypeArgs) > 0 {
+			lit += "]"
 		}
-		return LiteralType(t.Name), true
+		return lit, ok
 	}
 
 	var prefix string
diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index d2c5df5..98f9431 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -176,6 +176,8 @@ type (
 		IsRune bool
 		// If kind is array, ArrayLen will hold the array's length.
 		ArrayLen int64
+		// If the type is an instance of a generic type, TypeArgs will hold the info on its type arguments.
+		TypeArgs []TypeInfo
 		// If kind is map, key will hold the info on the map's key type.
 		Key *TypeInfo
 		// If kind is map, elem will hold the info on the map's value type.
@@ -234,6 +236,8 @@ type (
 		// The local name of the imported package of the field's type (including ".").
 		// Empty if the type is unnamed.
 		TypePkgLocal string
+		// The type arguments of the field's type, if it is an instance of a generic type.
+		TypeArgs []TypeInfo
 		// Indicates whether or not the type is imported.
 		IsImported bool
 		// Indicates whether or not the field is embedded.
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 343eb25..d25e801 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -512,6 +512,7 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
 		typeNode = GO.QualifiedIdent{imp.name, typ.Base.Name}
 	}
+	typeNode = addTypeArgs(g, typeNode, typ.Base.TypeArgs)
 
 	var rootinit GO.StmtNode
 	if !typ.IsSlice && !typ.IsIter && typ.IsPointer {
@@ -573,6 +574,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 					imp := addimport(g.file, node.TypePkgPath, node.TypePkgName)
 					typeNode = GO.QualifiedIdent{imp.name, node.TypeName}
 				}
+				typeNode = addTypeArgs(g, typeNode, node.TypeArgs)
 
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
@@ -934,12 +936,7 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		taken[methodecl.Name.Name] = struct{}{}
 
 		// the value's type; imports are added as necessary
-		valtype, ok := ff.Field.Type.QualifiedLiteral(func(typ *analysis.TypeInfo) string {
-			if typ.PkgPath == "" || typ.PkgPath == g.info.Info.PkgPath {
-				return ""
-			}
-			return addimport(g.file, typ.PkgPath, typ.PkgName).name
-		})
+		valtype, ok := ff.Field.Type.QualifiedLiteral(g.importQualifier)
 		if !ok {
 			valtype = "interface{}"
 		}
@@ -2483,6 +2480,33 @@ func makeGosqlIdent(g *generator, name string) GO.QualifiedIdent {
 	return GO.QualifiedIdent{imp.name, name}
 }
 
+// importQualifier imports the package of the given type, if necessary, and returns the
+// name with which the type's name is to be qualified.
+func (g *generator) importQualifier(typ *analysis.TypeInfo) string {
+	if typ.PkgPath == "" || typ.PkgPath == g.info.Info.PkgPath {
+		return ""
+	}
+	return addimport(g.file, typ.PkgPath, typ.PkgName).name
+}
+
+// addTypeArgs adds the given type arguments to the name of the type; imports are added as necessary.
+func addTypeArgs(g *generator, typ GO.TypeNode, args []analysis.TypeInfo) GO.TypeNode {
+	if len(args) == 0 {
+		return typ
+	}
+
+	inst := analysis.TypeInfo{Name: "T", TypeArgs: args}
+	lit, _ := inst.QualifiedLiteral(g.importQualifier)
+	list := strings.TrimPrefix(string(lit), inst.Name)
+	switch t := typ.(type) {
+	case GO.Ident:
+		return GO.Ident{t.Name + list}
+	case GO.QualifiedIdent:
+		return GO.QualifiedIdent{t.Package, t.Name + list}
+	}
+	return typ
+}
+
 // makeRelTypeNode
 func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 	if reltyp.Base.IsImported {
-- 
2.43.0

