From 425848c889b5ecd88ccb9408dc7d74446842a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 01/41] fix: format months with month names

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From 25f7a72b2023f2a9b8538c394a7591a8c1465301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 02/41] fix: report write errors while formatting booleans

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..2304a54 100644
--- a/ast.go
+++ b/ast.go
@@ -294,9 +294,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From b06c46462095f25f71a1c9be6c3863842fc9261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 03/41] fix: separate the rem operator from its operands when
 formatting

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index eda8dca..ce1981c 100644
--- a/format.go
+++ b/format.go
@@ -366,7 +366,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 073317269e2ca951d8117712cc5194a156510214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 04/41] fix: treat polygons as geometry in the type checker

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..9f50aba 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From 8faed3fbdec5537cbf83dcdca93569baa1f9b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 05/41] fix: type check selectors declared as integer arrays

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 9f50aba..304372d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From 1452fba4ecbee8cc156e5d153b05a8746a3ddc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 06/41] fix: type check both ends of a range

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 304372d..4c338bc 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -393,11 +393,11 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	}
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low)
+		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
 	case FLOAT:
-		return tc.isFloat(range_.Low)
+		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
 	case STRING:
-		return tc.isString(range_.Low)
+		return tc.isString(range_.Low) && tc.isString(range_.High)
 	}
 	return
 }
-- 
2.43.0


From 84b916b6c0d7ca02b492fd66f234866b89c35b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 07/41] fix: type check every element of a list

---
 typecheck.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 4c338bc..98cc631 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -403,17 +403,14 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-	var item Expr
+	var items []Expr
 	switch t := in.(type) {
 	default:
 		return
 	case *Selector:
-		item = t
+		items = []Expr{t}
 	case *ArrayTyp:
-		if len(t.List) == 0 {
-			return
-		}
-		item = t.List[0]
+		items = t.List
 	case *Ref:
 		assign, err := tc.trigger.findAssign(t.ID)
 		if err != nil {
@@ -423,22 +420,24 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		default:
 			return
 		case *ArrayTyp:
-			if len(tt.List) == 0 {
-				return
-			}
-			item = tt.List[0]
+			items = tt.List
 		}
 	}
 
-	switch typ {
-	case BOOLEAN:
-		return tc.isBoolean(item)
-	case INT:
-		return tc.isInt(item)
-	case FLOAT:
-		return tc.isFloat(item)
-	case STRING:
-		return tc.isString(item)
+	for _, item := range items {
+		switch typ {
+		case BOOLEAN:
+			ok = tc.isBoolean(item)
+		case INT:
+			ok = tc.isInt(item)
+		case FLOAT:
+			ok = tc.isFloat(item)
+		case STRING:
+			ok = tc.isString(item)
+		}
+		if !ok {
+			return false
+		}
 	}
 	return
 }
-- 
2.43.0


From ddc58f2fc91f05ff8602d95acb6362c22f2f1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 08/41] fix: type check variables holding ranges or selectors

---
 typecheck.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 98cc631..a13c3cc 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -264,7 +264,26 @@ func (tc *checker) walk(expr Expr) (Expr, error) {
 	return expr, nil
 }
 
+// resolve returns the range or selector assigned to a variable, or the
+// expression itself.
+func (tc *checker) resolve(in Expr) Expr {
+	ref, ok := in.(*Ref)
+	if !ok {
+		return in
+	}
+	assign, err := tc.trigger.findAssign(ref.ID)
+	if err != nil {
+		return in
+	}
+	switch assign.Right.(type) {
+	case *Range, *Selector:
+		return assign.Right
+	}
+	return in
+}
+
 func (tc *checker) is(rt ruleTyp, in Expr) (ok bool) {
+	in = tc.resolve(in)
 	switch rt {
 	case isGeometry:
 		ok = tc.isGeometry(in)
@@ -391,13 +410,14 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	if !ok {
 		return
 	}
+	low, high := tc.resolve(range_.Low), tc.resolve(range_.High)
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
+		return tc.isInt(low) && tc.isNumber(high)
 	case FLOAT:
-		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
+		return tc.isFloat(low) && tc.isNumber(high)
 	case STRING:
-		return tc.isString(range_.Low) && tc.isString(range_.High)
+		return tc.isString(low) && tc.isString(high)
 	}
 	return
 }
@@ -425,6 +445,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 	}
 
 	for _, item := range items {
+		item = tc.resolve(item)
 		switch typ {
 		case BOOLEAN:
 			ok = tc.isBoolean(item)
-- 
2.43.0


From c72a115de367a923dd1ef808d5d6d965cc5df462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 09/41] fix: format selector arguments in a stable order

---
 ast.go    | 12 +++++++++++-
 format.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 2304a54..2801c60 100644
--- a/ast.go
+++ b/ast.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"sort"
 	"time"
 )
 
@@ -268,10 +269,19 @@ func (e *Selector) calculateEnd(p Pos) {
 	}
 }
 
+func (e *Selector) sortedArgs() []string {
+	args := make([]string, 0, len(e.Args))
+	for k := range e.Args {
+		args = append(args, k)
+	}
+	sort.Strings(args)
+	return args
+}
+
 func (e *Selector) needExpand() (ok bool) {
 	var n int
 	var i int
-	for k := range e.Args {
+	for _, k := range e.sortedArgs() {
 		n += len(k)
 		if n > 64 {
 			ok = true
diff --git a/format.go b/format.go
index ce1981c..da444cf 100644
--- a/format.go
+++ b/format.go
@@ -293,7 +293,7 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
-		for k := range e.Args {
+		for _, k := range e.sortedArgs() {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From c5d6438c8a8454ead8a249dda50391f69446c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 10/41] fix: keep decimals decimal when formatting

---
 format.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index da444cf..e30d19f 100644
--- a/format.go
+++ b/format.go
@@ -3,7 +3,9 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"math"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -75,7 +77,15 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
-	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	checkError(w.WriteString(floatLit(v)))
+}
+
+func floatLit(v float64) string {
+	lit := strconv.FormatFloat(v, 'f', -1, 64)
+	if v >= math.MaxInt || v <= math.MinInt {
+		lit += ".0" // does not fit an integer literal
+	}
+	return lit
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -241,7 +251,11 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
-	formatFloat(w, e.Val)
+	lit := floatLit(e.Val)
+	if !strings.Contains(lit, ".") {
+		lit += ".0" // without a fraction it would be an integer
+	}
+	checkError(w.WriteString(lit))
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 3bdfe83ef6ab85918dd012d8bc434b3934d33461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 11/41] fix: format durations as literals that parse back

---
 format.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index e30d19f..565fa79 100644
--- a/format.go
+++ b/format.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"time"
 )
 
 const (
@@ -259,7 +260,13 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	lit := e.Val.String()
+	sec, frac := e.Val/time.Second, e.Val%time.Second
+	if frac != 0 && (sec >= 60 || e.Val < time.Millisecond) {
+		// 1m0.5s and 5µs are not duration literals
+		lit = strings.TrimRight(fmt.Sprintf("%d.%09d", sec, frac), "0") + "s"
+	}
+	checkError(b.WriteString(lit))
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From ead28798fef5d44bf7c84ccd599a2c8f4aa484f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 12/41] fix: always format calendar literals with keyword and
 brackets

---
 format.go | 108 ++++++++++++++++++++++++++----------------------------
 1 file changed, 51 insertions(+), 57 deletions(-)

diff --git a/format.go b/format.go
index 565fa79..dc070b6 100644
--- a/format.go
+++ b/format.go
@@ -217,27 +217,17 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
+	if low, high, kind := asCalendar(e.Low, e.High); len(kind) > 0 {
+		checkError(w.WriteString(kind + "["))
+		low.formatItem(w)
+		checkError(w.WriteString(" .. "))
+		high.formatItem(w)
+		checkError(w.WriteString("]"))
+		return
 	}
 	e.Low.format(w, padding, inline)
 	checkError(w.WriteString(" .. "))
 	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -354,24 +344,18 @@ func (e *GeometryPointTyp) format(w io.StringWriter, padding string, inline bool
 
 func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Kind {
-	case TIME:
-		checkError(b.WriteString("time"))
-		inline = true
-	case MONTH:
-		checkError(b.WriteString("month"))
-		inline = true
-	case DATE:
-		checkError(b.WriteString("date"))
-		inline = true
-	case WEEKDAY:
-		checkError(b.WriteString("weekday"))
-		inline = true
+	case TIME, MONTH, DATE, WEEKDAY:
+		checkError(b.WriteString(KeywordString(e.Kind)))
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if item, ok := expr.(calendarTyp); ok {
+			item.formatItem(b)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -474,24 +458,49 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
+// calendarTyp is a calendar literal; formatItem writes it without the
+// surrounding keyword and brackets.
+type calendarTyp interface {
+	Expr
+	calendarKind() Token
+	formatItem(w io.StringWriter)
+}
+
+func (e *DateTyp) calendarKind() Token    { return DATE }
+func (e *TimeTyp) calendarKind() Token    { return TIME }
+func (e *WeekdayTyp) calendarKind() Token { return WEEKDAY }
+func (e *MonthTyp) calendarKind() Token   { return MONTH }
+
+// asCalendar returns the keyword of two calendar literals of the same kind.
+func asCalendar(low, high Expr) (l, h calendarTyp, kind string) {
+	l, _ = low.(calendarTyp)
+	h, _ = high.(calendarTyp)
+	if l != nil && h != nil && l.calendarKind() == h.calendarKind() {
+		kind = KeywordString(l.calendarKind())
 	}
+	return
+}
+
+func formatCalendar(w io.StringWriter, e calendarTyp) {
+	checkError(w.WriteString(KeywordString(e.calendarKind()) + "["))
+	e.formatItem(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool)    { formatCalendar(w, e) }
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool)    { formatCalendar(w, e) }
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool)   { formatCalendar(w, e) }
+
+func (e *DateTyp) formatItem(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) formatItem(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -506,29 +515,14 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) formatItem(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) formatItem(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From 9385e38e4bb640be3551b23b4cd2a71b5194fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 13/41] fix: apply a sign only to the number it precedes

---
 parser.go    | 16 +++++++++-------
 primitive.go | 23 +++++++++++------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/parser.go b/parser.go
index 892b76a..35abdf1 100644
--- a/parser.go
+++ b/parser.go
@@ -25,6 +25,8 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+
+	signPos Pos
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -243,13 +245,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	s.next()
 
 	if s.except(SUB, ADD) {
-		switch s.tok {
-		case SUB:
-			s.sign = SUB
-		case ADD:
-			s.sign = ADD
-		}
+		s.sign = s.tok
+		s.signPos = s.t.Offset()
 		s.next()
+		if !s.except(FLOAT, INT) {
+			s.err = fmt.Errorf("illegal sign")
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
@@ -289,13 +291,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	case BOOLEAN:
 		expr, err = s.parseBooleanLit()
 	}
+	s.resetSign()
 	if err == nil {
 		switch s.tok {
 		case RANGE:
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
-	s.resetSign()
 	return
 }
 
diff --git a/primitive.go b/primitive.go
index ba9d923..915a912 100644
--- a/primitive.go
+++ b/primitive.go
@@ -24,7 +24,7 @@ func (s *parser) parseStringLit() (expr Expr, err error) {
 }
 
 func (s *parser) parseFloatTypes() (expr Expr, err error) {
-	s.lpos = s.t.Offset()
+	s.setLpos()
 	val, err := strconv.ParseFloat(s.lit, 64)
 	if err != nil {
 		return nil, s.error()
@@ -37,16 +37,13 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.t.Offset() - 1}
 	}
 	return
 }
 
 func (s *parser) parseIntTypes() (expr Expr, err error) {
-	s.lpos = s.t.Offset()
+	s.setLpos()
 	intval, err := strconv.Atoi(s.lit)
 	if err != nil {
 		return nil, s.error()
@@ -59,14 +56,19 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			intval = -intval
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.t.Offset() - 1}
 	}
 	return
 }
 
+// setLpos records the start of a number, including its sign.
+func (s *parser) setLpos() {
+	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.signPos
+	}
+}
+
 func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
 	s.rpos = s.t.Offset() - 1
@@ -113,9 +115,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if s.isSignPlus() {
 			ts = Plus
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
@@ -135,7 +134,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			if er != nil {
 				return nil, s.error()
 			}
-			s.rpos = s.lpos + Pos(len(plit+s.lit)-1)
+			s.rpos += Pos(len(plit + s.lit))
 			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 			s.next()
 		}
-- 
2.43.0


From 9294d1def09766236d5fe5c3af43cf5646aa3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 14/41] fix: reject negative pressure instead of dropping the
 sign

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index 915a912..c6a0dc6 100644
--- a/primitive.go
+++ b/primitive.go
@@ -85,6 +85,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			s.err = errNegativeValue
+			return nil, s.error()
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From 5774af6b81a05eca45d6a902641eaae858ee569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 15/41] fix: keep quotes that belong to a string literal

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 35abdf1..64b6a3c 100644
--- a/parser.go
+++ b/parser.go
@@ -374,7 +374,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From 040e023bc8ec37ea7362b073b2fafeb2e9335b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 16/41] fix: require operators and a closing bracket in
 parentheses

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 64b6a3c..2deaaae 100644
--- a/parser.go
+++ b/parser.go
@@ -319,10 +319,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 43a5e2ccf249c34b374d56428ad64ff5d76220db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 17/41] fix: consume the wildcard token

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 2deaaae..b4e34e4 100644
--- a/parser.go
+++ b/parser.go
@@ -302,7 +302,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From a3513f6c1e2a1c455d869e0ee69de9bcf4b2064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 18/41] fix: reject text after the end of a rule and lexical
 errors

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index b4e34e4..a63d497 100644
--- a/parser.go
+++ b/parser.go
@@ -59,6 +59,9 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 			return nil, err
 		}
 	}
+	if s.err = s.t.Err(); s.err != nil || !s.except(EOF) {
+		return nil, s.error()
+	}
 	stmt.rpos = s.t.Offset()
 	return stmt, nil
 }
-- 
2.43.0


From 02ed79757a493a5d9810305452128ae1c36a6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 19/41] fix: do not take the mod operator for a duration unit

---
 primitive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitive.go b/primitive.go
index c6a0dc6..e526ba5 100644
--- a/primitive.go
+++ b/primitive.go
@@ -125,7 +125,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		s.next()
 	default:
 		var fr rune
-		if len(s.lit) > 0 {
+		if s.except(SELECTOR) && len(s.lit) > 0 {
 			fr = rune(s.lit[0])
 		}
 		switch fr {
-- 
2.43.0


From 1cb0c44d75a93e86e47bbf669ac4b8f12b7cdaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 20/41] fix: require a name after @ and record the extent of
 variables and booleans

---
 primitive.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/primitive.go b/primitive.go
index e526ba5..e1589a3 100644
--- a/primitive.go
+++ b/primitive.go
@@ -6,8 +6,13 @@ import (
 )
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
+	lpos := s.t.Offset()
 	s.next()
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
+	id := s.t.TokenText()
+	expr = &Ref{ID: id, lpos: lpos, rpos: s.t.Offset() + Pos(len(id)-1)}
 	s.next()
 	return
 }
@@ -177,9 +182,9 @@ func (s *parser) parseBooleanLit() (expr Expr, err error) {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: true, lpos: s.t.Offset(), rpos: s.t.Offset() + Pos(len(s.lit)-1)}
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: false, lpos: s.t.Offset(), rpos: s.t.Offset() + Pos(len(s.lit)-1)}
 	}
 	s.next()
 	return
-- 
2.43.0


From 65604ffc2aaac94a9fc7d066e2fb517fd0025068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 21/41] fix: require the words every and after, accept
 fractional intervals

---
 parser.go | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/parser.go b/parser.go
index a63d497..92c3848 100644
--- a/parser.go
+++ b/parser.go
@@ -101,19 +101,29 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
-		return s.error()
+	stmt.RepeatInterval, err = s.parseClauseDuration("every")
+	return
+}
+
+// parseClauseDuration parses the given word followed by a duration.
+func (s *parser) parseClauseDuration(word string) (dur Expr, err error) {
+	if !s.except(SELECTOR) || s.lit != word {
+		return nil, s.error()
 	}
 	s.next()
-	dur, err := s.parseIntTypes()
+	switch s.tok {
+	case INT:
+		dur, err = s.parseIntTypes()
+	case FLOAT:
+		dur, err = s.parseFloatTypes()
+	}
 	if err != nil {
-		return err
+		return nil, err
 	}
 	if _, ok := dur.(*DurationTyp); !ok {
-		return s.error()
+		return nil, s.error()
 	}
-	stmt.RepeatInterval = dur
-	return
+	return dur, nil
 }
 
 func (s *parser) parseSet(stmt *Trigger) error {
@@ -168,22 +178,7 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
-	s.next()
-	var dur Expr
-	switch s.tok {
-	case INT:
-		dur, err = s.parseIntTypes()
-	case FLOAT:
-		dur, err = s.parseFloatTypes()
-	}
-	if err != nil {
-		return err
-	}
-	_, ok := dur.(*DurationTyp)
-	if !ok {
-		return s.error()
-	}
-	stmt.ResetAfter = dur
+	stmt.ResetAfter, err = s.parseClauseDuration("after")
 	return
 }
 
-- 
2.43.0


From 8a693e727abbe21671496eab0b7dcd85cfe2db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 22/41] fix: return a nil statement with a syntax error

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 92c3848..9bdf9cb 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,11 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, er := s.parseTriggerStmt()
+		if er != nil {
+			return nil, er
+		}
+		stmt = trigger
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 73ef6e2b31203632cc237007c202f9d5c6448395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 23/41] fix: require separators between array elements

---
 composite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite.go b/composite.go
index c1520c1..9aca42c 100644
--- a/composite.go
+++ b/composite.go
@@ -77,6 +77,9 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		if !s.except(COMMA, COLON) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
-- 
2.43.0


From 901a08d11928e8a958472a723cf78e2301376048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 24/41] fix: require separators and a closing bracket in device
 lists

---
 composite.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/composite.go b/composite.go
index 9aca42c..675206c 100644
--- a/composite.go
+++ b/composite.go
@@ -127,26 +127,30 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 
 	if s.except(LBRACE) {
 		var i int
-		for {
+		for first := true; ; first = false {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(RBRACE) && first {
 				break
 			}
-			if s.except(COMMA) {
-				continue
-			}
 			if s.except(MUL) {
 				selector.Wildcard = true
-				continue
+			} else {
+				i++
+				if !s.except(STRING) {
+					return nil, s.error()
+				}
+				if selector.Args == nil {
+					selector.Args = make(map[string]struct{})
+				}
+				selector.Args[trim(s.t.TokenText())] = struct{}{}
 			}
-			i++
-			if !s.except(STRING) {
-				return nil, s.error()
+			s.next()
+			if s.except(RBRACE) {
+				break
 			}
-			if selector.Args == nil {
-				selector.Args = make(map[string]struct{})
+			if !s.except(COMMA) {
+				return nil, s.error()
 			}
-			selector.Args[trim(s.t.TokenText())] = struct{}{}
 		}
 		if i == 0 {
 			selector.Wildcard = true
-- 
2.43.0


From 5287aad7a03d8262c32ba1fc48a056b5c213f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 25/41] fix: reject malformed dates

---
 datetime.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..4c42c36 100644
--- a/datetime.go
+++ b/datetime.go
@@ -14,6 +14,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 	}
 	var arrayExpr *ArrayTyp
 	var rangeExpr *Range
+	isSep := func(n int) bool { return n == 0 || n == 2 }
 	isDay := func(n int) bool { return n == 3 }
 	isMonth := func(n int) bool { return n == 1 }
 	isArrayTyp := func() bool { return arrayExpr != nil }
@@ -36,17 +37,15 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			s.err = err
 			return nil, s.error()
 		}
-		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(SUB) {
-				sep++
-				continue
-			}
-			if !s.except(SUB, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
-			}
 			switch {
+			case isSep(i):
+				if !s.except(SUB) {
+					err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
+				}
+			case !s.except(INT):
+				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
 			case isMonth(i):
 				m, err = strconv.Atoi(s.lit)
 			case isDay(i):
@@ -72,10 +71,6 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			s.err = fmt.Errorf("invalid year format: got %d, expected 2022-2200", y)
 			return nil, s.error()
 		}
-		if sep < 1 {
-			s.err = fmt.Errorf("invalid date format")
-			return nil, s.error()
-		}
 		s.next()
 		date := &DateTyp{
 			Year:  y,
-- 
2.43.0


From 1ff378a19b728860d6f4b6241758c6c17d1da872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 26/41] fix: reject malformed times

---
 datetime.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/datetime.go b/datetime.go
index 4c42c36..5a770d9 100644
--- a/datetime.go
+++ b/datetime.go
@@ -129,6 +129,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 	}
 	var arrayExpr *ArrayTyp
 	var rangeExpr *Range
+	isSep := func(n int) bool { return n == 0 || n == 2 }
 	isSeconds := func(n int) bool { return n == 3 }
 	isMinutes := func(n int) bool { return n == 1 }
 	isArrayTyp := func() bool { return arrayExpr != nil }
@@ -151,21 +152,18 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			s.err = err
 			return nil, s.error()
 		}
-		var sep int
+		s.next()
 		for i := 0; i <= 3; i++ {
-			s.next()
-			if s.except(COLON) {
-				sep++
-				continue
-			}
-			if s.except(RBRACK, COMMA, RANGE, SELECTOR) {
-				s.t.Reset()
-				break
-			}
-			if !s.except(COLON, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
+			if i == 2 && !s.except(COLON) {
+				break // without seconds
 			}
 			switch {
+			case isSep(i):
+				if !s.except(COLON) {
+					err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
+				}
+			case !s.except(INT):
+				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
 			case isMinutes(i):
 				m, err = strconv.Atoi(s.lit)
 			case isSeconds(i):
@@ -174,6 +172,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			if err != nil {
 				break
 			}
+			s.next()
 		}
 		if err != nil {
 			s.err = err
@@ -191,11 +190,6 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			s.err = fmt.Errorf("invalid seconds: got %d, expected 0-59", c)
 			return nil, s.error()
 		}
-		if sep < 1 {
-			s.err = fmt.Errorf("invalid time format")
-			return nil, s.error()
-		}
-		s.next()
 		time_ := &TimeTyp{
 			Hours:   h,
 			Minutes: m,
-- 
2.43.0


From 331f95ee1f5ece3b9e3fc991003c984f0769ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 27/41] fix: require a comma or a single range operator between
 calendar items

---
 datetime.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/datetime.go b/datetime.go
index 5a770d9..4ced10d 100644
--- a/datetime.go
+++ b/datetime.go
@@ -88,14 +88,17 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: DATE, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = date
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -217,14 +220,17 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: TIME, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = time_
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -303,14 +309,17 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: WEEKDAY, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -399,14 +408,17 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: MONTH, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
 			if rangeExpr == nil {
 				rangeExpr = &Range{}
 			}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From ef8cf22d6ea33138f1400bb8bfeeb3e8756373e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 28/41] fix: reject malformed geometry coordinates

---
 geometry.go | 194 +++++++++++++++++++++++++---------------------------
 1 file changed, 93 insertions(+), 101 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..1988883 100644
--- a/geometry.go
+++ b/geometry.go
@@ -104,110 +104,19 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	if !s.except(LBRACK) {
 		return nil, s.error()
 	}
-	var path int
-	var x, y float64
-	var pi uint8
 	var aa [2]float64
 	var bb [][2]float64
 	var cc [][][2]float64
-	open := true
-	q := 1
-	for {
-		s.next()
-		if s.except(EOF) {
-			break
-		}
-		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
-		}
-		if s.except(LBRACK) {
-			path++
-			q++
-			open = true
-			continue
-		}
-		if s.except(RBRACK) {
-			if open {
-				switch path {
-				case 0:
-					aa = [2]float64{x, y}
-				case 1:
-					if bb == nil {
-						bb = make([][2]float64, 0)
-					}
-					bb = append(bb, [2]float64{x, y})
-				case 2:
-					if cc == nil {
-						cc = make([][][2]float64, 0)
-					}
-					if bb == nil {
-						bb = make([][2]float64, 0)
-					}
-					bb = append(bb, [2]float64{x, y})
-				}
-			}
-			if path > 0 {
-				path--
-			}
-			if path == 0 && bb != nil && cc != nil {
-				if len(bb) > 0 {
-					cc = append(cc, bb)
-				}
-				bb = make([][2]float64, 0)
-			}
-			open = false
-			pi = 0
-			x = 0
-			y = 0
-			q--
-			if q <= 0 {
-				s.next()
-				break
-			}
-			continue
-		}
-		if s.except(COMMA) {
-			if open {
-				pi = 1
-			}
-			continue
-		}
-		if s.except(SUB) {
-			s.sign = SUB
-			s.next()
-		}
-
-		var val float64
-		switch s.tok {
-		case FLOAT:
-			val, err = strconv.ParseFloat(s.lit, 64)
-			if err != nil {
-				s.err = err
-				return nil, s.error()
-			}
-		case INT:
-			ival, err := strconv.Atoi(s.lit)
-			if err != nil {
-				s.err = err
-				return nil, s.error()
-			}
-			val = float64(ival)
-		default:
-			return nil, s.error()
-		}
-
-		if s.isSignMinus() {
-			val = -val
-		}
-		switch pi {
-		case 0:
-			x = val
-		case 1:
-			y = val
-		default:
-			return nil, s.error()
-		}
-		s.resetSign()
+	switch geomtyp {
+	case GEOMETRY_POINT:
+		aa, err = s.parsePosition()
+	case GEOMETRY_LINE:
+		bb, err = s.parsePath()
+	case GEOMETRY_POLYGON:
+		cc, err = s.parseRings()
+	}
+	if err != nil {
+		return nil, err
 	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
@@ -242,3 +151,86 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	err = s.error()
 	return
 }
+
+// parseRings parses "[path, ...]".
+func (s *parser) parseRings() (rings [][][2]float64, err error) {
+	err = s.parseCoordinates(func() error {
+		path, err := s.parsePath()
+		rings = append(rings, path)
+		return err
+	})
+	return
+}
+
+// parsePath parses "[position, ...]".
+func (s *parser) parsePath() (path [][2]float64, err error) {
+	err = s.parseCoordinates(func() error {
+		pos, err := s.parsePosition()
+		path = append(path, pos)
+		return err
+	})
+	return
+}
+
+// parsePosition parses "[x, y]".
+func (s *parser) parsePosition() (pos [2]float64, err error) {
+	var n int
+	err = s.parseCoordinates(func() (err error) {
+		if n == len(pos) {
+			return s.error()
+		}
+		pos[n], err = s.parseCoordinate()
+		n++
+		return err
+	})
+	if err == nil && n != len(pos) {
+		err = s.error()
+	}
+	return
+}
+
+// parseCoordinates parses a bracketed list with at least one item.
+func (s *parser) parseCoordinates(item func() error) error {
+	if !s.except(LBRACK) {
+		return s.error()
+	}
+	for {
+		s.next()
+		if err := item(); err != nil {
+			return err
+		}
+		if s.except(RBRACK) {
+			s.next()
+			return nil
+		}
+		if !s.except(COMMA) {
+			return s.error()
+		}
+	}
+}
+
+func (s *parser) parseCoordinate() (val float64, err error) {
+	minus := s.except(SUB)
+	if minus {
+		s.next()
+	}
+	switch s.tok {
+	case FLOAT:
+		val, err = strconv.ParseFloat(s.lit, 64)
+	case INT:
+		var ival int
+		ival, err = strconv.Atoi(s.lit)
+		val = float64(ival)
+	default:
+		return 0, s.error()
+	}
+	if err != nil {
+		s.err = err
+		return 0, s.error()
+	}
+	if minus {
+		val = -val
+	}
+	s.next()
+	return val, nil
+}
-- 
2.43.0


From 37cfdff67e57abdd7ae2b7628562fbd43e037746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 29/41] fix: reject a radius or margin that is not a distance

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index e1589a3..73ed884 100644
--- a/primitive.go
+++ b/primitive.go
@@ -155,6 +155,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
 	var ok bool
 	switch s.tok {
+	default:
+		return nil, s.error()
 	case INT:
 		re, err := s.parseIntTypes()
 		if err != nil {
-- 
2.43.0


From 5120b6a0b7dba829ba3aaae3791cefc305869667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 30/41] fix: require separators and closing brackets in
 geometry lists

---
 geometry.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/geometry.go b/geometry.go
index 1988883..71a77c5 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -45,14 +45,12 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	multiobj.rpos = s.t.Offset()
-	if len(multiobj.Val) == 0 {
-		return nil, s.error()
-	}
 	return multiobj, nil
 }
 
@@ -68,7 +66,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
@@ -86,14 +84,12 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	collection.rpos = s.t.Offset()
-	if len(collection.Objects) == 0 {
-		return nil, s.error()
-	}
 	return collection, nil
 }
 
-- 
2.43.0


From e962fb95454e4d6783bb2c52f5e1eb505c201a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 31/41] fix: a multi geometry starts at its keyword

---
 geometry.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geometry.go b/geometry.go
index 71a77c5..415ae16 100644
--- a/geometry.go
+++ b/geometry.go
@@ -3,17 +3,16 @@ package geoqlparser
 import "strconv"
 
 func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
-	geotyp := s.tok
+	multiobj := &GeometryMultiObjectTyp{
+		Kind: s.tok,
+		Val:  make([]Expr, 0),
+		lpos: s.t.Offset(),
+	}
 	s.next()
 	if !s.except(LBRACK) {
 		return nil, s.error()
 	}
 	s.next()
-	multiobj := &GeometryMultiObjectTyp{
-		Kind: geotyp,
-		Val:  make([]Expr, 0),
-		lpos: s.t.Offset(),
-	}
 	for {
 		if !isGeometryToken(s.tok) {
 			return nil, s.error()
-- 
2.43.0


From ffa4e375501c511159e8021cdfb889c65a5188ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 32/41] fix: do not walk absent clauses

---
 walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/walk.go b/walk.go
index bfbde08..aa4fec1 100644
--- a/walk.go
+++ b/walk.go
@@ -37,9 +37,15 @@ func Walk(v Visitor, expr Expr) {
 			}
 		}
 		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		if typ.RepeatCount != nil {
+			Walk(v, typ.RepeatCount)
+		}
+		if typ.RepeatInterval != nil {
+			Walk(v, typ.RepeatInterval)
+		}
+		if typ.ResetAfter != nil {
+			Walk(v, typ.ResetAfter)
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From d284f885ef4f5124e149d9ea248434df6e9c9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 33/41] fix: walk into geometry literals

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index aa4fec1..ac4dbb4 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From d456ed69f6b450d396bb316a25bdd369255ad605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 34/41] fix: indent nested parentheses one level at a time

The indentation doubled with every level, so a rule with 30 nested
parentheses formatted to gigabytes of tabs.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index dc070b6..d98a396 100644
--- a/format.go
+++ b/format.go
@@ -397,7 +397,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From 2b8e8861382b85b8a69957d9761d4cc5cf255990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 35/41] fix: limit the nesting of expressions

A few megabytes of nested parentheses, lists, properties or ranges
overflowed the stack, which no caller can recover from.
---
 parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser.go b/parser.go
index 9bdf9cb..62018ed 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,12 @@ import (
 
 var errNegativeValue = errors.New("value cannot be negative")
 
+// maxNesting limits the depth of nested expressions: unlimited recursion would
+// exhaust the stack.
+const maxNesting = 10000
+
+var errNesting = errors.New("expression is nested too deeply")
+
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
 	t := NewTokenizer(r)
@@ -27,6 +33,7 @@ type parser struct {
 	rpos Pos
 
 	signPos Pos
+	nesting int
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -244,6 +251,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.nesting++
+	defer func() { s.nesting-- }()
+	if s.nesting > maxNesting {
+		s.err = errNesting
+		return nil, s.error()
+	}
+
 	s.next()
 
 	if s.except(SUB, ADD) {
-- 
2.43.0


From fa7732b189f84ce69f578f5ba53ec5f46e57eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 36/41] fix: accept a colon between list elements only in lists
 of integers

[a:1 : b] was read as the list of a:1 and b, but formatted as [a:1, b],
which is a list of one selector with two properties.
---
 composite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 675206c..2ecb441 100644
--- a/composite.go
+++ b/composite.go
@@ -77,7 +77,10 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
-		if !s.except(COMMA, COLON) {
+		if s.except(COLON) && arrayExpr.Kind == INT {
+			continue // [11:11:11]
+		}
+		if !s.except(COMMA) {
 			return nil, s.error()
 		}
 	}
-- 
2.43.0


From 8d8a6555d1e0eb27cda91951122bb39ea6a64200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 37/41] fix: report the first error of the tokenizer, not the
 last

---
 token.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/token.go b/token.go
index 2ae51e6..08d46dc 100644
--- a/token.go
+++ b/token.go
@@ -26,7 +26,9 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	s.s.Mode = scanner.ScanIdents | scanner.ScanFloats | scanner.ScanStrings
 	s.s.Init(r)
 	s.s.Error = func(_ *scanner.Scanner, msg string) {
-		s.err = errors.New(msg)
+		if s.err == nil {
+			s.err = errors.New(msg)
+		}
 	}
 	return s
 }
-- 
2.43.0


From 5ae3933e7c537a84ad19c0ba2fe8478845b171d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 38/41] fix: separate the division operator from its operands
 when formatting: a/* is a comment

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index d98a396..ae491dc 100644
--- a/format.go
+++ b/format.go
@@ -371,7 +371,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO:
+	case ADD, SUB, MUL:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 39f89dead5a191e0ec2c0b796c4acf6f588afbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 39/41] fix: reject a range as the upper end of a range

---
 composite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite.go b/composite.go
index 2ecb441..40ccb08 100644
--- a/composite.go
+++ b/composite.go
@@ -99,6 +99,9 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if err != nil {
 		return
 	}
+	if _, isRangeExpr = high.(*Range); isRangeExpr {
+		return nil, s.error()
+	}
 	return &Range{
 		Low:  low,
 		High: high,
-- 
2.43.0


From 0a6665ebb12b07363611aa724c31fd620b9547b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 40/41] fix: the end of the input is no character of an
 identifier

---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1fe49bc..a43ca09 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -332,7 +332,7 @@ func (s *Scanner) errorf(format string, args ...any) {
 
 func (s *Scanner) isIdentRune(ch rune, i int) bool {
 	if s.IsIdentRune != nil {
-		return s.IsIdentRune(ch, i)
+		return ch != EOF && s.IsIdentRune(ch, i)
 	}
 	return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
 }
-- 
2.43.0


From d53aca17d8c6475066ab9e416033814e317f3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 41/41] fix: a dot before digits begins a decimal number

---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index a43ca09..bd5aa2e 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -396,6 +396,9 @@ func (s *Scanner) scanNumber(ch rune, seenDot bool) (rune, rune) {
 			ch, _ = s.digits(s.next(), base, &invalid)
 			seenDot = true
 		}
+	} else {
+		tok = Float
+		ch, _ = s.digits(ch, base, &invalid)
 	}
 	if tok == Int && invalid != 0 {
 		s.errorf("invalid digit %q in decimal literal", invalid)
-- 
2.43.0

