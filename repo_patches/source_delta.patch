From 7c8749647ac31a879479ce2be4eb141afbbb3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 01/35] fix: % by a divisor that truncates to zero is a
 division by zero error, not a panic

---
 v6/pkg/walkers/semantics/walk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..ac527ca 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -234,10 +234,12 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		}
 		return leftNum / rightNum, nil
 	case tsl.OpPercent:
-		if rightNum == 0 {
+		// The operands are truncated to integers, a divisor such as 0.5 becomes zero
+		divisor := int64(rightNum)
+		if divisor == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
-		return float64(int64(leftNum) % int64(rightNum)), nil
+		return float64(int64(leftNum) % divisor), nil
 	default:
 		return nil, tsl.UnexpectedOperatorError{Operator: operator}
 	}
-- 
2.43.0


From 6911fbc03281979856be2ba86ff72f641b47aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 02/35] fix: comparing arrays or maps for equality must not
 panic

---
 v6/pkg/walkers/semantics/walk.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index ac527ca..bbab734 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,10 +208,19 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Values that Go can not compare (arrays, maps) are never equal
+	if !isComparable(leftVal) || !isComparable(rightVal) {
+		return false, nil
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
 
+// isComparable reports whether Go's == is defined for a value
+func isComparable(val interface{}) bool {
+	return val == nil || reflect.ValueOf(val).Comparable()
+}
+
 func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}) (interface{}, error) {
 	leftNum, ok := toFloat64(leftVal)
 	if !ok {
-- 
2.43.0


From 7f09152c3b364c963e79a2a70fa045e025d3cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 03/35] fix: LIKE and ILIKE match regex metacharacters
 literally and % and _ match newlines

---
 v6/pkg/walkers/semantics/evaluators.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..764b692 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -176,10 +176,11 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, only % and _ are special
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
+	matched, _ := regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 	return matched, nil
 }
 
-- 
2.43.0


From 60413a9d3ffdaa485fc6e56721c80ec3180f3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 04/35] fix: IN and BETWEEN compare dates the way = and <= do

---
 v6/pkg/walkers/semantics/evaluators.go | 88 +++++---------------------
 1 file changed, 16 insertions(+), 72 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 764b692..efa6a90 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -67,38 +67,15 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 
 	switch value.(type) {
 	case string, float64, time.Time, bool:
-		// Continue with existing type-specific checks
-		switch v := value.(type) {
-		case string:
-			for _, item := range arr {
-				if str, ok := item.(string); ok && str == v {
-					return true, nil
-				}
+		// An item is in the list if it is equal to the value, date literals
+		// are strings and have to be compared as dates
+		for _, item := range arr {
+			matched, err := evaluateEquality(value, item)
+			if err != nil {
+				return false, err
 			}
-		case float64:
-			for _, item := range arr {
-				switch i := item.(type) {
-				case float64:
-					if i == v {
-						return true, nil
-					}
-				case int:
-					if float64(i) == v {
-						return true, nil
-					}
-				}
-			}
-		case time.Time:
-			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
-					return true, nil
-				}
-			}
-		case bool:
-			for _, item := range arr {
-				if b, ok := item.(bool); ok && b == v {
-					return true, nil
-				}
+			if matched {
+				return true, nil
 			}
 		}
 		return false, nil
@@ -111,50 +88,17 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 }
 
 // isValueInRange checks if a value is within a range (inclusive)
-// Supports both numeric values and time.Time comparisons
+// Supports numeric values, and dates given as time.Time or as date literals
 func isValueInRange(value, min, max interface{}) (bool, error) {
-	switch v := value.(type) {
-	case float64:
-		minVal, okMin := toFloat64(min)
-		maxVal, okMax := toFloat64(max)
-		if okMin && okMax {
-			return v >= minVal && v <= maxVal, nil
-		}
-		// Try int conversion if float64 conversion failed
-		if !okMin {
-			if minInt, ok := min.(int); ok {
-				minVal = float64(minInt)
-				okMin = true
-			}
-		}
-		if !okMax {
-			if maxInt, ok := max.(int); ok {
-				maxVal = float64(maxInt)
-				okMax = true
-			}
-		}
-		if !okMin || !okMax {
-			return false, &tsl.TypeMismatchError{
-				Expected: "numeric values",
-				Got:      value,
-			}
-		}
-		return v >= minVal && v <= maxVal, nil
-	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
-		if !okMin || !okMax {
-			return false, &tsl.TypeMismatchError{
-				Expected: "time values",
-				Got:      value,
-			}
-		}
-		return !v.Before(minTime) && !v.After(maxTime), nil
+	aboveMin, err := evaluateCompareExpressions(tsl.OpGE, value, min)
+	if err != nil {
+		return false, err
 	}
-	return false, &tsl.TypeMismatchError{
-		Expected: "numeric or time.Time values",
-		Got:      value,
+	belowMax, err := evaluateCompareExpressions(tsl.OpLE, value, max)
+	if err != nil {
+		return false, err
 	}
+	return aboveMin == true && belowMax == true, nil
 }
 
 // evaluateLikePattern performs pattern matching with SQL LIKE semantics
-- 
2.43.0


From b34cc1adf73126d9a5c2bc0fa6450cb38a2b6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 05/35] fix: SQL of a date literal is its timestamp, not a
 panic

---
 v6/pkg/walkers/sql/walk.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..cb586d4 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -43,7 +43,10 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
 		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
+		t, ok := toTime(n.Value())
+		if !ok {
+			return nil, tsl.UnexpectedLiteralError{Literal: n.Value()}
+		}
 		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
@@ -67,6 +70,20 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	return
 }
 
+// toTime returns the time of a date or timestamp literal, the value of a date
+// literal (YYYY-MM-DD) is a string
+func toTime(value interface{}) (time.Time, bool) {
+	switch v := value.(type) {
+	case time.Time:
+		return v, true
+	case string:
+		t, err := time.Parse("2006-01-02", v)
+		return t, err == nil
+	default:
+		return time.Time{}, false
+	}
+}
+
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	if n.Type() != tsl.KindArrayLiteral {
-- 
2.43.0


From 372fd47549929c4079df6d80d8fc9311e05ec52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 06/35] fix: SQL conditions used as operands are put in
 parentheses

---
 v6/pkg/walkers/sql/walk.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index cb586d4..a8283f0 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -95,7 +95,7 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	var err error
 
 	for i, node := range array.Values {
-		values[i], err = Walk(node)
+		values[i], err = walkOperand(node)
 		if err != nil {
 			return nil, err
 		}
@@ -104,11 +104,42 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	return values, nil
 }
 
+// walkOperand returns the SQL of an operand, in parentheses if it is a
+// condition: the SQL precedences would otherwise group its operators with the
+// operator it is an operand of
+func walkOperand(n *tsl.TSLNode) (sq.Sqlizer, error) {
+	s, err := Walk(n)
+	if err != nil || !isCondition(n) {
+		return s, err
+	}
+	return sq.Expr("(?)", s), nil
+}
+
+// isCondition reports whether the SQL of a node is a condition that is not
+// already in parentheses, as arithmetic, AND and OR are
+func isCondition(n *tsl.TSLNode) bool {
+	if n.Type() != tsl.KindBinaryExpr && n.Type() != tsl.KindUnaryExpr {
+		return false
+	}
+	switch n.Value().(tsl.TSLExpressionOp).Operator {
+	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpUMinus, tsl.OpAnd, tsl.OpOr:
+		return false
+	default:
+		return true
+	}
+}
+
 func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	op := n.Value().(tsl.TSLExpressionOp)
 
-	l, err = Walk(op.Left)
+	// The operands of AND and OR are grouped by their precedence
+	walk := walkOperand
+	if op.Operator == tsl.OpAnd || op.Operator == tsl.OpOr {
+		walk = Walk
+	}
+
+	l, err = walk(op.Left)
 	if err != nil {
 		return
 	}
@@ -134,7 +165,7 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 
 	// For non-array operations, handle normally
-	r, err := Walk(op.Right)
+	r, err := walk(op.Right)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From c27ce23d4e0696dd89bf1021c112ef8675a6a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 07/35] fix: an unknown character is a syntax error, not the
 end of the input

---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..bf22e26 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -191,7 +191,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..69d110b 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1180,7 +1180,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 6c880e191224f65b42c3fd6a0a443a6034f31435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 08/35] fix: the position of a syntax error is never negative

---
 v6/pkg/parser/tsl_parser.y  | 3 ++-
 v6/pkg/tsl/tsl_parser.tab.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..4436778 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -254,7 +254,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // Subtract 2 to account for token start, staying within the input
+    set_error_position(yycolumn > 2 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..dac9bbf 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1779,7 +1779,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // Subtract 2 to account for token start, staying within the input
+    set_error_position(yycolumn > 2 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
-- 
2.43.0


From b4fe443dd07eae24d7565b6e764135293bd700f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 09/35] fix: only a quoted date or timestamp is a date or
 timestamp literal

---
 v6/pkg/parser/tsl_lexer.l | 36 +++++++++++++++++++++++++++++++-----
 v6/pkg/tsl/lex.yy.c       | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index bf22e26..beab8e3 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -16,16 +16,42 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match the start of s with a pattern in which 9 stands for a digit; returns the length of the match or 0 */
+static int match_digits(const char *s, const char *pattern) {
+    int i;
+    for (i = 0; pattern[i] != '\0'; i++) {
+        if (pattern[i] == '9' ? s[i] < '0' || s[i] > '9' : s[i] != pattern[i]) return 0;
+    }
+    return i;
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    int n = match_digits(s, "9999-99-99");
+    if (!n) return 0;
+    if (s[n] == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
-        yylval.str = s;
-        return RFC3339;
     }
-    return 0;
+
+    int len = match_digits(s + n, "T99:99:99");
+    if (!len) return 0;
+    n += len;
+    if (s[n] == '.') {
+        if (!match_digits(s + n, ".9")) return 0;
+        for (n += 2; s[n] >= '0' && s[n] <= '9'; n++);
+    }
+    if (s[n] == 'Z') {
+        n++;
+    } else {
+        len = match_digits(s + n, "+99:99");
+        if (!len) len = match_digits(s + n, "-99:99");
+        if (!len) return 0;
+        n += len;
+    }
+    if (s[n] != '\0') return 0;
+    yylval.str = s;
+    return RFC3339;
 }
 
 /* Process escaped characters in a string */
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 69d110b..7f215ed 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -585,16 +585,42 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match the start of s with a pattern in which 9 stands for a digit; returns the length of the match or 0 */
+static int match_digits(const char *s, const char *pattern) {
+    int i;
+    for (i = 0; pattern[i] != '\0'; i++) {
+        if (pattern[i] == '9' ? s[i] < '0' || s[i] > '9' : s[i] != pattern[i]) return 0;
+    }
+    return i;
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    int n = match_digits(s, "9999-99-99");
+    if (!n) return 0;
+    if (s[n] == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
-        yylval.str = s;
-        return RFC3339;
     }
-    return 0;
+
+    int len = match_digits(s + n, "T99:99:99");
+    if (!len) return 0;
+    n += len;
+    if (s[n] == '.') {
+        if (!match_digits(s + n, ".9")) return 0;
+        for (n += 2; s[n] >= '0' && s[n] <= '9'; n++);
+    }
+    if (s[n] == 'Z') {
+        n++;
+    } else {
+        len = match_digits(s + n, "+99:99");
+        if (!len) len = match_digits(s + n, "-99:99");
+        if (!len) return 0;
+        n += len;
+    }
+    if (s[n] != '\0') return 0;
+    yylval.str = s;
+    return RFC3339;
 }
 
 /* Process escaped characters in a string */
-- 
2.43.0


From aacefff276ab9b74bc7056adf9de91ac0a17a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 10/35] fix: the size suffixes KI, MI, ... are binary like Ki,
 Mi, ...

---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..3c34410 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -24,7 +24,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From a3fd4b37eb065957171ab13c49dfd15d36913fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 11/35] fix: attaching a freed or empty child changes nothing
 and reports failure

---
 v6/pkg/tsl/tsl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..08d613a 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -173,7 +173,7 @@ func (n *TSLNode) DetachChild() *TSLNode {
 
 // AttachLeft safely attaches a child node as the left child of a binary expression node
 func (n *TSLNode) AttachLeft(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindBinaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindBinaryExpr {
 		return false
 	}
 	return C.ast_attach_binary_left(n.cNode, child.cNode) != 0
@@ -181,7 +181,7 @@ func (n *TSLNode) AttachLeft(child *TSLNode) bool {
 
 // AttachRight safely attaches a child node as the right child of a binary expression node
 func (n *TSLNode) AttachRight(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindBinaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindBinaryExpr {
 		return false
 	}
 	return C.ast_attach_binary_right(n.cNode, child.cNode) != 0
@@ -189,7 +189,7 @@ func (n *TSLNode) AttachRight(child *TSLNode) bool {
 
 // AttachChild safely attaches a child node to a unary expression node
 func (n *TSLNode) AttachChild(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindUnaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindUnaryExpr {
 		return false
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
-- 
2.43.0


From eacdb06651a4ac3dcfa2a6f2dd135557f6d27461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 12/35] fix: concurrent parses do not share parser state

---
 v6/pkg/tsl/tsl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 08d613a..84521d7 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"sync"
 	"time"
 	"unsafe"
 )
@@ -43,8 +44,14 @@ type TSLArrayLiteral struct {
 	Values []*TSLNode
 }
 
+// parseMutex protects the parser, it keeps its state in C globals
+var parseMutex sync.Mutex
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 77d20ff100372ede7e4097a38b398d4038c38dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 13/35] fix: a NUL byte in the input is a syntax error

---
 v6/pkg/tsl/tsl.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 84521d7..8944063 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"sync"
 	"time"
 	"unsafe"
@@ -52,6 +53,15 @@ func ParseTSL(input string) (*TSLNode, error) {
 	parseMutex.Lock()
 	defer parseMutex.Unlock()
 
+	// A NUL ends the text for the parser, no token contains one
+	if pos := strings.IndexByte(input, 0); pos >= 0 {
+		return nil, &SyntaxError{
+			Message:  "syntax error",
+			Position: pos,
+			Input:    input,
+		}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From c2097fe87d24e717758e631b676369a20af4a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 14/35] fix: array elements leaked when an array literal is
 built

---
 v6/pkg/parser/tsl_parser.y  | 2 +-
 v6/pkg/tsl/tsl_parser.tab.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 4436778..39b1daa 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -188,7 +188,7 @@ array_elements:
                                       for(int i = 0; i < $1->data.array.size; i++) {
                                           elements[i] = ast_clone($1->data.array.elements[i]);
                                       }
-                                      elements[$1->data.array.size] = ast_clone($3);
+                                      elements[$1->data.array.size] = $3;
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free($1);
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index dac9bbf..cee1217 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1485,7 +1485,7 @@ yyreduce:
                                       for(int i = 0; i < (yyvsp[-2].node)->data.array.size; i++) {
                                           elements[i] = ast_clone((yyvsp[-2].node)->data.array.elements[i]);
                                       }
-                                      elements[(yyvsp[-2].node)->data.array.size] = ast_clone((yyvsp[0].node));
+                                      elements[(yyvsp[-2].node)->data.array.size] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
-- 
2.43.0


From 55240ff4f28ce63c78dd5cf8a147441359d33d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 15/35] fix: values the parser discards at a syntax error
 leaked

---
 v6/pkg/parser/tsl_parser.y  |   8 +-
 v6/pkg/tsl/tsl_parser.tab.c | 208 +++++++++++++++++++++++++++---------
 2 files changed, 161 insertions(+), 55 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 39b1daa..c21ff1f 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -60,16 +60,16 @@ char *error_string = NULL;
 %right UMINUS                      /* unary minus */
 
 /* Nonterminal types */
-%type <node> input expr or_expr and_expr comparison_expr
+%type <node> expr or_expr and_expr comparison_expr
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
-
+%destructor { ast_free($$); } <node>
 %start input
-
+%destructor { free($$); } <str>
 %%
 
 input:
-    expr { $$ = $1; ast_root = $1; }
+    expr { ast_root = $1; }
     ;
 
 expr:
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index cee1217..e1b6841 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -943,7 +943,113 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 66 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1207,80 +1313,80 @@ yyreduce:
     {
   case 2: /* input: expr  */
 #line 72 "tsl_parser.y"
-         { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+         { ast_root = (yyvsp[0].node); }
+#line 1318 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
 #line 81 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
 #line 86 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
 #line 91 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
 #line 92 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
 #line 93 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
 #line 94 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
 #line 95 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
 #line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
 #line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
 #line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
 #line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
 #line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
@@ -1289,7 +1395,7 @@ yyreduce:
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1399 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
@@ -1298,13 +1404,13 @@ yyreduce:
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1408 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
 #line 109 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
@@ -1313,7 +1419,7 @@ yyreduce:
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1423 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
@@ -1326,7 +1432,7 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1436 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
@@ -1340,13 +1446,13 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1450 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
 #line 131 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
@@ -1355,115 +1461,115 @@ yyreduce:
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1465 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
 #line 140 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
 #line 141 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
 #line 146 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
 #line 147 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
 #line 148 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
 #line 153 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
 #line 154 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
 #line 155 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
 #line 156 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
 #line 157 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
 #line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
 #line 163 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
 #line 164 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
 #line 165 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
 #line 169 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
 #line 173 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
 #line 174 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
 #line 175 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
@@ -1474,7 +1580,7 @@ yyreduce:
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1584 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
@@ -1490,53 +1596,53 @@ yyreduce:
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1600 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
 #line 199 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1606 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
 #line 200 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1612 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
 #line 201 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1618 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
 #line 202 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1624 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
 #line 203 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1630 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
 #line 204 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1636 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
 #line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1642 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1646 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
-- 
2.43.0


From bf4ada8791e0198c147cfd198123a78105cd9828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 16/35] fix: ident.Walk leaks its copy of a tree that is one
 identifier

---
 v6/pkg/walkers/ident/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..0ec06ef 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -70,6 +70,9 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		treeCopy.Free() // Clean up the copy if there's an error
 		return nil, err
 	}
+	if newTree != treeCopy {
+		treeCopy.Free() // The whole tree was replaced
+	}
 
 	return newTree, nil
 }
-- 
2.43.0


From caaa5175c956818315b7c3a922684c2b282a6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 17/35] fix: ident.Walk replaces identifiers in arrays

---
 v6/pkg/tsl/tsl.go            | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 21 +++++++++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 8944063..978d81d 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -211,3 +211,14 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as the element of an array node at the given index
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	if index < 0 || index >= int(C.get_array_size(n.cNode)) {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 3c34410..36a9e33 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -285,3 +285,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..3251c43 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -62,6 +62,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 0ec06ef..9f986ec 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -149,6 +149,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process the elements
+		for i, value := range array.Values {
+			if value.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(value, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(value, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From 7e7bb29c43ac3e181022a33745a9f128a1c3d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 18/35] fix: graphviz identifiers of two nodes could be the
 same

---
 v6/pkg/walkers/graphviz/walk.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..2b521cd 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -48,6 +48,17 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number
+type vertexIDs struct {
+	root string
+	used int
+}
+
+func (ids *vertexIDs) next() string {
+	ids.used++
+	return fmt.Sprintf("%s_%d", ids.root, ids.used)
+}
+
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
 	if in != "" {
@@ -70,15 +81,15 @@ func formatOperatorNode(nodeID string, operator string) string {
 }
 
 // handleChildren processes child nodes and returns their formatted string and IDs
-func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error) {
+func handleChildren(in string, children []*tsl.TSLNode, ids *vertexIDs) (string, []string, error) {
 	childrenIDs := []string{}
 	result := ""
 
 	for _, child := range children {
-		childID := randStr(4)
+		childID := ids.next()
 		childrenIDs = append(childrenIDs, childID)
 
-		r, err := Walk(in, child, childID)
+		r, err := walk(in, child, childID, ids)
 		if err != nil {
 			return "", nil, err
 		}
@@ -110,6 +121,11 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		nodeID = randStr(4)
 	}
 
+	return walk(in, n, nodeID, &vertexIDs{root: nodeID})
+}
+
+// walk creates the dot nodes of a node, which has the identifier nodeID, and of its children
+func walk(in string, n *tsl.TSLNode, nodeID string, ids *vertexIDs) (out string, err error) {
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		out = formatLeafNodeWithInput(in, nodeID, identStyle, n.Type(), fmt.Sprintf("'%s'", n.Value()))
@@ -127,7 +143,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right})
+		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right}, ids)
 		if err != nil {
 			return "", err
 		}
@@ -138,7 +154,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right})
+		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right}, ids)
 		if err != nil {
 			return "", err
 		}
@@ -151,7 +167,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		// Use arrayStyle instead of opStyle for arrays
 		st = strings.Replace(st, opStyle, arrayStyle, 1)
 
-		childrenStr, childrenIDs, err := handleChildren(in, array.Values)
+		childrenStr, childrenIDs, err := handleChildren(in, array.Values, ids)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 1be6395be3a900159e9f812f00c1c01125f3ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 19/35] fix: graphviz repeated the caller's prefix for every
 node

---
 v6/pkg/walkers/graphviz/walk.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 2b521cd..f1e08d5 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -61,9 +61,6 @@ func (ids *vertexIDs) next() string {
 
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
-	if in != "" {
-		in = fmt.Sprintf("%s\n", in)
-	}
 	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
 		nodeID,
 		style,
@@ -81,7 +78,7 @@ func formatOperatorNode(nodeID string, operator string) string {
 }
 
 // handleChildren processes child nodes and returns their formatted string and IDs
-func handleChildren(in string, children []*tsl.TSLNode, ids *vertexIDs) (string, []string, error) {
+func handleChildren(children []*tsl.TSLNode, ids *vertexIDs) (string, []string, error) {
 	childrenIDs := []string{}
 	result := ""
 
@@ -89,7 +86,7 @@ func handleChildren(in string, children []*tsl.TSLNode, ids *vertexIDs) (string,
 		childID := ids.next()
 		childrenIDs = append(childrenIDs, childID)
 
-		r, err := walk(in, child, childID, ids)
+		r, err := walk("", child, childID, ids)
 		if err != nil {
 			return "", nil, err
 		}
@@ -120,6 +117,9 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 	if nodeID == "" {
 		nodeID = randStr(4)
 	}
+	if in != "" {
+		in = fmt.Sprintf("%s\n", in)
+	}
 
 	return walk(in, n, nodeID, &vertexIDs{root: nodeID})
 }
@@ -143,7 +143,7 @@ func walk(in string, n *tsl.TSLNode, nodeID string, ids *vertexIDs) (out string,
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right}, ids)
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Left, expr.Right}, ids)
 		if err != nil {
 			return "", err
 		}
@@ -154,7 +154,7 @@ func walk(in string, n *tsl.TSLNode, nodeID string, ids *vertexIDs) (out string,
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right}, ids)
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Right}, ids)
 		if err != nil {
 			return "", err
 		}
@@ -167,7 +167,7 @@ func walk(in string, n *tsl.TSLNode, nodeID string, ids *vertexIDs) (out string,
 		// Use arrayStyle instead of opStyle for arrays
 		st = strings.Replace(st, opStyle, arrayStyle, 1)
 
-		childrenStr, childrenIDs, err := handleChildren(in, array.Values, ids)
+		childrenStr, childrenIDs, err := handleChildren(array.Values, ids)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 9abb9170a9c0a586d5c617e7d31959e81582881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 20/35] fix: graphviz emitted no vertex for a null literal

---
 v6/pkg/walkers/graphviz/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index f1e08d5..ea7f9a5 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -33,6 +33,7 @@ const identStyle = baseRecordStyle + " color=red"
 const numberStyle = baseRecordStyle + " color=blue"
 const stringStyle = baseRecordStyle + " color=blue"
 const booleanStyle = baseRecordStyle + " color=purple"
+const nullStyle = baseRecordStyle + " color=gray"
 const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
 const opStyle = baseBoxStyle + " color=black"
@@ -135,6 +136,8 @@ func walk(in string, n *tsl.TSLNode, nodeID string, ids *vertexIDs) (out string,
 		out = formatLeafNodeWithInput(in, nodeID, numberStyle, n.Type(), n.Value())
 	case tsl.KindBooleanLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, booleanStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), "null")
 	case tsl.KindDateLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
-- 
2.43.0


From 8e36186d2e09b74ab7b93f0f632e8f7e012a4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 21/35] fix: graphviz labels did not escape values

---
 v6/pkg/walkers/graphviz/walk.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index ea7f9a5..1a1f2f6 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -49,6 +49,14 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in the label of a record
+func escapeLabel(s string) string {
+	return strings.NewReplacer(
+		`\`, `\\`, `"`, `\"`,
+		`{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`,
+	).Replace(s)
+}
+
 // vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number
 type vertexIDs struct {
 	root string
@@ -62,11 +70,11 @@ func (ids *vertexIDs) next() string {
 
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
-	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
+	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		escapeLabel(fmt.Sprintf("%v", value)))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
-- 
2.43.0


From e6b28505be4063c1347a6a4691053911c7c7686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 22/35] fix: v5 dates are equal when they are the same instant,
 whatever their zone

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..2d4391b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -455,9 +455,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From ac146864df3107f79df120b7cca6f102a7691629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 23/35] fix: v4 and v5 LIKE: % and _ match newlines

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..68de446 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 2d4391b..5a643cb 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -740,7 +740,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From 8b3baba5de66641f31be3ea400b7f2b1bd2433da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 24/35] fix: v5 comparing with a record value that is a list is
 an error, not a panic

---
 v5/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 5a643cb..3af11fa 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -205,6 +205,11 @@ func handleIdentRight(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 		return n, err
 	}
 
+	// A list of values is not a right hand side.
+	if r.Func == tsl.ArrayOp {
+		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+	}
+
 	n.Right = r
 	return n, nil
 }
-- 
2.43.0


From 5264be3d2a68651f307a61a3105c0cfb31dccffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 25/35] fix: v4 IN and BETWEEN with a literal of another type
 is an error, not a panic

---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 68de446..97c430c 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left < end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left >= end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == s
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != s
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left < end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left >= end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == f
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != f
 		}
 		return b, nil
 	}
-- 
2.43.0


From f28db3cdaa42218ad967cd18e180fc8f905aa098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 26/35] fix: v4 and v5 NOT BETWEEN is the negation of BETWEEN
 for NaN too

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 97c430c..43a7410 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -346,7 +346,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return !(left >= begin && left < end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 3af11fa..7cfdafe 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -628,7 +628,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return !(left >= begin && left < end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From 8a5d724952683977fb39ed873afeb20bd6ce712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 27/35] fix: v4 and v5 IS NULL of arithmetic that is not
 evaluated is an error

---
 v4/pkg/walkers/semantics/walk.go | 6 ++++++
 v5/pkg/walkers/semantics/walk.go | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 43a7410..cea96eb 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -81,6 +81,12 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		return Walk(newNode, eval)
 	}
 
+	// Math ops are not evaluated.
+	switch l.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return false, tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
 	// Implement tree semantics.
 	switch n.Func {
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 7cfdafe..2dcf200 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -83,7 +83,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp || l.Func == tsl.ModuloOp {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +105,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp || r.Func == tsl.ModuloOp {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
-- 
2.43.0


From 530b216a9fe44f6cf6be8c828bf556cac515884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 28/35] fix: v4 and v5 graphviz.Walk repeated the prefix before
 every child

---
 v4/pkg/walkers/graphviz/walk.go | 4 ++--
 v5/pkg/walkers/graphviz/walk.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..59475bc 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -108,7 +108,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(4)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -131,7 +131,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(4)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..d8723a3 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -117,7 +117,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(4)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -140,7 +140,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(4)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From 196c8f1beca1ee3b32e4893e3f81700b3bc5292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 29/35] fix: v4 and v5 graphviz.Walk could give two nodes the
 same identifier

---
 v4/pkg/walkers/graphviz/walk.go | 24 ++++++++++++++++++++----
 v5/pkg/walkers/graphviz/walk.go | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 59475bc..5d11a5f 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -42,6 +42,17 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number.
+type vertexIDs struct {
+	root string
+	used int
+}
+
+func (ids *vertexIDs) next() string {
+	ids.used++
+	return fmt.Sprintf("%s_%d", ids.root, ids.used)
+}
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -70,6 +81,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 		in = fmt.Sprintf("%s\n", in)
 	}
 
+	return walk(in, n, nodeID, &vertexIDs{root: nodeID})
+}
+
+// walk creates the dot nodes of a node, which has the identifier nodeID, and of its children.
+func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err error) {
 	switch n.Func {
 	case tsl.IdentOp:
 		// Add leaf label and value.
@@ -105,10 +121,10 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := ids.next()
 			childrens = append(childrens, leftID)
 
-			l, err := Walk("", n.Left.(tsl.Node), leftID)
+			l, err := walk("", n.Left.(tsl.Node), leftID, ids)
 			if err != nil {
 				return "", err
 			}
@@ -128,10 +144,10 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := ids.next()
 				childrens = append(childrens, rightID)
 
-				r, err := Walk("", v, rightID)
+				r, err := walk("", v, rightID, ids)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index d8723a3..f774518 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -43,6 +43,17 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number.
+type vertexIDs struct {
+	root string
+	used int
+}
+
+func (ids *vertexIDs) next() string {
+	ids.used++
+	return fmt.Sprintf("%s_%d", ids.root, ids.used)
+}
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -71,6 +82,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 		in = fmt.Sprintf("%s\n", in)
 	}
 
+	return walk(in, n, nodeID, &vertexIDs{root: nodeID})
+}
+
+// walk creates the dot nodes of a node, which has the identifier nodeID, and of its children.
+func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err error) {
 	switch n.Func {
 	case tsl.IdentOp:
 		// Add leaf label and value.
@@ -114,10 +130,10 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := ids.next()
 			childrens = append(childrens, leftID)
 
-			l, err := Walk("", n.Left.(tsl.Node), leftID)
+			l, err := walk("", n.Left.(tsl.Node), leftID, ids)
 			if err != nil {
 				return "", err
 			}
@@ -137,10 +153,10 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := ids.next()
 				childrens = append(childrens, rightID)
 
-				r, err := Walk("", v, rightID)
+				r, err := walk("", v, rightID, ids)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From 259c8d8109092e0484af182af2edf72a4cec3f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 30/35] fix: v4 and v5 graphviz labels did not escape values

---
 v4/pkg/walkers/graphviz/walk.go | 12 ++++++++++--
 v5/pkg/walkers/graphviz/walk.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 5d11a5f..2582459 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -42,6 +42,14 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in the label of a record.
+func escapeLabel(s string) string {
+	return strings.NewReplacer(
+		`\`, `\\`, `"`, `\"`,
+		`{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`,
+	).Replace(s)
+}
+
 // vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number.
 type vertexIDs struct {
 	root string
@@ -93,7 +101,7 @@ func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(fmt.Sprintf("%s", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -101,7 +109,7 @@ func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(fmt.Sprintf("%s", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index f774518..ecf21d0 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -43,6 +43,14 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in the label of a record.
+func escapeLabel(s string) string {
+	return strings.NewReplacer(
+		`\`, `\\`, `"`, `\"`,
+		`{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`,
+	).Replace(s)
+}
+
 // vertexIDs hands out the identifiers of the vertices of one tree: the root's, followed by a number.
 type vertexIDs struct {
 	root string
@@ -94,7 +102,7 @@ func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(fmt.Sprintf("%s", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -102,7 +110,7 @@ func walk(in string, n tsl.Node, nodeID string, ids *vertexIDs) (out string, err
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(fmt.Sprintf("%s", n.Left)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-- 
2.43.0


From e1d1a8a973e30c6b1ad5784c8743c9e9220012da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 31/35] fix: v4 and v5 mongo.Walk of a condition about no
 identifier is an error, not a filter of the key ""

---
 v4/pkg/walkers/mongo/walk.go | 18 ++++++++++++++++++
 v5/pkg/walkers/mongo/walk.go | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..6114e41 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -34,6 +34,20 @@ func identString(n interface{}) string {
 	return ""
 }
 
+// checkOperands checks that the operands of a leaf condition have a MongoDB counterpart.
+func checkOperands(n tsl.Node) error {
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
+		tsl.InOp, tsl.NotInOp, tsl.IsNilOp, tsl.IsNotNilOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		// A filter is about a field of the document.
+		if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+			return tsl.UnexpectedLiteralError{Literal: l.Func}
+		}
+	}
+
+	return nil
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -80,6 +94,10 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	if err = checkOperands(n); err != nil {
+		return
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..a5f1780 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -34,6 +34,20 @@ func identString(n interface{}) string {
 	return ""
 }
 
+// checkOperands checks that the operands of a leaf condition have a MongoDB counterpart.
+func checkOperands(n tsl.Node) error {
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
+		tsl.InOp, tsl.NotInOp, tsl.IsNilOp, tsl.IsNotNilOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		// A filter is about a field of the document.
+		if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+			return tsl.UnexpectedLiteralError{Literal: l.Func}
+		}
+	}
+
+	return nil
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -80,6 +94,10 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	if err = checkOperands(n); err != nil {
+		return
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
-- 
2.43.0


From 89cd303055272f7eac31bebefc19d6f2d6a489cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 32/35] fix: v4 and v5 mongo.Walk of a comparison with an
 identifier or arithmetic is an error, not its name

---
 v4/pkg/walkers/mongo/walk.go | 10 ++++++++++
 v5/pkg/walkers/mongo/walk.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 6114e41..fe7043e 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -45,6 +45,16 @@ func checkOperands(n tsl.Node) error {
 		}
 	}
 
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
+		// It is compared with a value.
+		switch r := n.Right.(tsl.Node); r.Func {
+		case tsl.StringOp, tsl.NumberOp, tsl.NullOp:
+		default:
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
+	}
+
 	return nil
 }
 
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index a5f1780..6993020 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -45,6 +45,16 @@ func checkOperands(n tsl.Node) error {
 		}
 	}
 
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
+		// It is compared with a value.
+		switch r := n.Right.(tsl.Node); r.Func {
+		case tsl.StringOp, tsl.NumberOp, tsl.BooleanOp, tsl.DateOp, tsl.NullOp:
+		default:
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From dffe2215e9b28e708741fb60d6f761363b7373d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 33/35] fix: v4 and v5 mongo.Walk of a regular expression that
 is not a string is an error, not a panic

---
 v4/pkg/walkers/mongo/walk.go | 5 +++++
 v5/pkg/walkers/mongo/walk.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index fe7043e..cc5a406 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -53,6 +53,11 @@ func checkOperands(n tsl.Node) error {
 		default:
 			return tsl.UnexpectedLiteralError{Literal: r.Func}
 		}
+	case tsl.RegexOp, tsl.NotRegexOp:
+		// It is matched with a text.
+		if r := n.Right.(tsl.Node); r.Func != tsl.StringOp {
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
 	}
 
 	return nil
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index 6993020..bd2efa1 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -53,6 +53,11 @@ func checkOperands(n tsl.Node) error {
 		default:
 			return tsl.UnexpectedLiteralError{Literal: r.Func}
 		}
+	case tsl.RegexOp, tsl.NotRegexOp:
+		// It is matched with a text.
+		if r := n.Right.(tsl.Node); r.Func != tsl.StringOp {
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
 	}
 
 	return nil
-- 
2.43.0


From ac1f524015ffa2f738360342b73ffec115a74843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 34/35] fix: v4 and v5 SQL binds literals of arithmetic and
 keeps the arguments of the left hand side

---
 v4/pkg/walkers/sql/walk.go | 53 +++++++++++++++++++--------------
 v5/pkg/walkers/sql/walk.go | 61 +++++++++++++++++++++-----------------
 2 files changed, 64 insertions(+), 50 deletions(-)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index de25a97..3fac1a7 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -18,7 +18,6 @@ package sql
 
 import (
 	"fmt"
-	"strconv"
 
 	sq "github.com/Masterminds/squirrel"
 
@@ -96,13 +95,14 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	var sql string
+	var args []interface{}
 
 	l, err = Walk(n.Left.(tsl.Node))
 	if err != nil {
 		return
 	}
 
-	sql, _, err = l.ToSql()
+	sql, args, err = l.ToSql()
 	if err != nil {
 		return
 	}
@@ -113,41 +113,49 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.NotOp:
 		s = notExpr{l}
 	case tsl.EqOp:
-		s = sq.Eq{sql: right[0]}
+		s = sq.Expr(sql+" = ?", append(args, right[0])...)
 	case tsl.NotEqOp:
-		s = sq.NotEq{sql: right[0]}
+		s = sq.Expr(sql+" <> ?", append(args, right[0])...)
 	case tsl.LtOp:
-		s = sq.Lt{sql: right[0]}
+		s = sq.Expr(sql+" < ?", append(args, right[0])...)
 	case tsl.LteOp:
-		s = sq.LtOrEq{sql: right[0]}
+		s = sq.Expr(sql+" <= ?", append(args, right[0])...)
 	case tsl.GtOp:
-		s = sq.Gt{sql: right[0]}
+		s = sq.Expr(sql+" > ?", append(args, right[0])...)
 	case tsl.GteOp:
-		s = sq.GtOrEq{sql: right[0]}
+		s = sq.Expr(sql+" >= ?", append(args, right[0])...)
 	case tsl.InOp:
-		// Multiple eq will be translated into IN (?, ? ...).
-		s = sq.Eq{sql: right}
+		// No value is in an empty list.
+		if len(right) == 0 {
+			s = sq.Expr("(1=0)")
+			break
+		}
+		t := fmt.Sprintf("%s IN (%s)", sql, sq.Placeholders(len(right)))
+		s = sq.Expr(t, append(args, right...)...)
 	case tsl.NotInOp:
-		// Multiple not eq will be translated into NOT IN (?, ? ...).
-		s = sq.NotEq{sql: right}
+		// Every value is not in an empty list.
+		if len(right) == 0 {
+			s = sq.Expr("(1=1)")
+			break
+		}
+		t := fmt.Sprintf("%s NOT IN (%s)", sql, sq.Placeholders(len(right)))
+		s = sq.Expr(t, append(args, right...)...)
 	case tsl.IsNilOp:
-		// eq nil will be translated into IS NULL.
-		s = sq.Eq{sql: nil}
+		s = sq.Expr(sql+" IS NULL", args...)
 	case tsl.IsNotNilOp:
-		// not eq nil will be translated into IS NOT NULL.
-		s = sq.NotEq{sql: nil}
+		s = sq.Expr(sql+" IS NOT NULL", args...)
 	case tsl.LikeOp:
 		t := fmt.Sprintf("%s LIKE ?", sql)
-		s = sq.Expr(t, right[0])
+		s = sq.Expr(t, append(args, right[0])...)
 	case tsl.ILikeOp:
 		t := fmt.Sprintf("%s ILIKE ?", sql)
-		s = sq.Expr(t, right[0])
+		s = sq.Expr(t, append(args, right[0])...)
 	case tsl.BetweenOp:
 		t := fmt.Sprintf("%s BETWEEN ? AND ?", sql)
-		s = sq.Expr(t, right[0], right[1])
+		s = sq.Expr(t, append(args, right[0], right[1])...)
 	case tsl.NotBetweenOp:
 		t := fmt.Sprintf("%s NOT BETWEEN ? AND ?", sql)
-		s = sq.Expr(t, right[0], right[1])
+		s = sq.Expr(t, append(args, right[0], right[1])...)
 	default:
 		// If here than the operator is not supported.
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
@@ -173,10 +181,9 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IdentOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.NumberOp:
-		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
-		s = sq.Expr(f)
+		s = sq.Expr("?", n.Left.(float64))
 	case tsl.StringOp:
-		s = sq.Expr(n.Left.(string))
+		s = sq.Expr("?", n.Left.(string))
 	case tsl.AndOp, tsl.OrOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp,
 		tsl.ModuloOp:
 		return binaryStep(n)
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..86f16f7 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -18,7 +18,6 @@ package sql
 
 import (
 	"fmt"
-	"strconv"
 	"time"
 
 	sq "github.com/Masterminds/squirrel"
@@ -109,13 +108,14 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	var sql string
+	var args []interface{}
 
 	l, err = Walk(n.Left.(tsl.Node))
 	if err != nil {
 		return
 	}
 
-	sql, _, err = l.ToSql()
+	sql, args, err = l.ToSql()
 	if err != nil {
 		return
 	}
@@ -126,41 +126,49 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.NotOp:
 		s = notExpr{l}
 	case tsl.EqOp:
-		s = sq.Eq{sql: right[0]}
+		s = sq.Expr(sql+" = ?", append(args, right[0])...)
 	case tsl.NotEqOp:
-		s = sq.NotEq{sql: right[0]}
+		s = sq.Expr(sql+" <> ?", append(args, right[0])...)
 	case tsl.LtOp:
-		s = sq.Lt{sql: right[0]}
+		s = sq.Expr(sql+" < ?", append(args, right[0])...)
 	case tsl.LteOp:
-		s = sq.LtOrEq{sql: right[0]}
+		s = sq.Expr(sql+" <= ?", append(args, right[0])...)
 	case tsl.GtOp:
-		s = sq.Gt{sql: right[0]}
+		s = sq.Expr(sql+" > ?", append(args, right[0])...)
 	case tsl.GteOp:
-		s = sq.GtOrEq{sql: right[0]}
+		s = sq.Expr(sql+" >= ?", append(args, right[0])...)
 	case tsl.InOp:
-		// Multiple eq will be translated into IN (?, ? ...).
-		s = sq.Eq{sql: right}
+		// No value is in an empty list.
+		if len(right) == 0 {
+			s = sq.Expr("(1=0)")
+			break
+		}
+		t := fmt.Sprintf("%s IN (%s)", sql, sq.Placeholders(len(right)))
+		s = sq.Expr(t, append(args, right...)...)
 	case tsl.NotInOp:
-		// Multiple not eq will be translated into NOT IN (?, ? ...).
-		s = sq.NotEq{sql: right}
+		// Every value is not in an empty list.
+		if len(right) == 0 {
+			s = sq.Expr("(1=1)")
+			break
+		}
+		t := fmt.Sprintf("%s NOT IN (%s)", sql, sq.Placeholders(len(right)))
+		s = sq.Expr(t, append(args, right...)...)
 	case tsl.IsNilOp:
-		// eq nil will be translated into IS NULL.
-		s = sq.Eq{sql: nil}
+		s = sq.Expr(sql+" IS NULL", args...)
 	case tsl.IsNotNilOp:
-		// not eq nil will be translated into IS NOT NULL.
-		s = sq.NotEq{sql: nil}
+		s = sq.Expr(sql+" IS NOT NULL", args...)
 	case tsl.LikeOp:
 		t := fmt.Sprintf("%s LIKE ?", sql)
-		s = sq.Expr(t, right[0])
+		s = sq.Expr(t, append(args, right[0])...)
 	case tsl.ILikeOp:
 		t := fmt.Sprintf("%s ILIKE ?", sql)
-		s = sq.Expr(t, right[0])
+		s = sq.Expr(t, append(args, right[0])...)
 	case tsl.BetweenOp:
 		t := fmt.Sprintf("%s BETWEEN ? AND ?", sql)
-		s = sq.Expr(t, right[0], right[1])
+		s = sq.Expr(t, append(args, right[0], right[1])...)
 	case tsl.NotBetweenOp:
 		t := fmt.Sprintf("%s NOT BETWEEN ? AND ?", sql)
-		s = sq.Expr(t, right[0], right[1])
+		s = sq.Expr(t, append(args, right[0], right[1])...)
 	default:
 		// If here than the operator is not supported.
 		err = tsl.UnexpectedLiteralError{Literal: n.Func}
@@ -186,20 +194,19 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IdentOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.NumberOp:
-		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
-		s = sq.Expr(f)
+		s = sq.Expr("?", n.Left.(float64))
 	case tsl.DateOp:
 		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		s = sq.Expr("?", f)
 	case tsl.StringOp:
-		s = sq.Expr(n.Left.(string))
+		s = sq.Expr("?", n.Left.(string))
 	case tsl.BooleanOp:
 		// No Booleans in SQL, convert to 0 for false and 1 for true.
-		value := "0"
+		value := 0
 		if n.Left.(bool) {
-			value = "1"
+			value = 1
 		}
-		s = sq.Expr(value)
+		s = sq.Expr("?", value)
 	case tsl.AndOp, tsl.OrOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp,
 		tsl.ModuloOp:
 		return binaryStep(n)
-- 
2.43.0


From 6514c4b685ef1b767d683961cc0b1386c3dc789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 35/35] fix: v4 and v5 SQL compares with an identifier or
 arithmetic as such, not as a literal

---
 v4/pkg/walkers/sql/walk.go | 40 ++++++++++++++++++++++++++++----------
 v5/pkg/walkers/sql/walk.go | 40 ++++++++++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index 3fac1a7..2f3f76e 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -91,6 +91,28 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// compare makes the condition that compares the left hand side sql, that has the bound arguments
+// args, with the right hand side: a value is bound, an identifier or arithmetic is not a value.
+func compare(sql string, args []interface{}, op string, right interface{}) (s sq.Sqlizer, err error) {
+	var r sq.Sqlizer
+	var rightSQL string
+	var rightArgs []interface{}
+
+	r, err = Walk(right.(tsl.Node))
+	if err != nil {
+		return
+	}
+
+	rightSQL, rightArgs, err = r.ToSql()
+	if err != nil {
+		return
+	}
+
+	s = sq.Expr(fmt.Sprintf("%s %s %s", sql, op, rightSQL), append(args, rightArgs...)...)
+
+	return
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -113,17 +135,17 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.NotOp:
 		s = notExpr{l}
 	case tsl.EqOp:
-		s = sq.Expr(sql+" = ?", append(args, right[0])...)
+		return compare(sql, args, "=", n.Right)
 	case tsl.NotEqOp:
-		s = sq.Expr(sql+" <> ?", append(args, right[0])...)
+		return compare(sql, args, "<>", n.Right)
 	case tsl.LtOp:
-		s = sq.Expr(sql+" < ?", append(args, right[0])...)
+		return compare(sql, args, "<", n.Right)
 	case tsl.LteOp:
-		s = sq.Expr(sql+" <= ?", append(args, right[0])...)
+		return compare(sql, args, "<=", n.Right)
 	case tsl.GtOp:
-		s = sq.Expr(sql+" > ?", append(args, right[0])...)
+		return compare(sql, args, ">", n.Right)
 	case tsl.GteOp:
-		s = sq.Expr(sql+" >= ?", append(args, right[0])...)
+		return compare(sql, args, ">=", n.Right)
 	case tsl.InOp:
 		// No value is in an empty list.
 		if len(right) == 0 {
@@ -145,11 +167,9 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IsNotNilOp:
 		s = sq.Expr(sql+" IS NOT NULL", args...)
 	case tsl.LikeOp:
-		t := fmt.Sprintf("%s LIKE ?", sql)
-		s = sq.Expr(t, append(args, right[0])...)
+		return compare(sql, args, "LIKE", n.Right)
 	case tsl.ILikeOp:
-		t := fmt.Sprintf("%s ILIKE ?", sql)
-		s = sq.Expr(t, append(args, right[0])...)
+		return compare(sql, args, "ILIKE", n.Right)
 	case tsl.BetweenOp:
 		t := fmt.Sprintf("%s BETWEEN ? AND ?", sql)
 		s = sq.Expr(t, append(args, right[0], right[1])...)
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 86f16f7..c1c945c 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -104,6 +104,28 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// compare makes the condition that compares the left hand side sql, that has the bound arguments
+// args, with the right hand side: a value is bound, an identifier or arithmetic is not a value.
+func compare(sql string, args []interface{}, op string, right interface{}) (s sq.Sqlizer, err error) {
+	var r sq.Sqlizer
+	var rightSQL string
+	var rightArgs []interface{}
+
+	r, err = Walk(right.(tsl.Node))
+	if err != nil {
+		return
+	}
+
+	rightSQL, rightArgs, err = r.ToSql()
+	if err != nil {
+		return
+	}
+
+	s = sq.Expr(fmt.Sprintf("%s %s %s", sql, op, rightSQL), append(args, rightArgs...)...)
+
+	return
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -126,17 +148,17 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.NotOp:
 		s = notExpr{l}
 	case tsl.EqOp:
-		s = sq.Expr(sql+" = ?", append(args, right[0])...)
+		return compare(sql, args, "=", n.Right)
 	case tsl.NotEqOp:
-		s = sq.Expr(sql+" <> ?", append(args, right[0])...)
+		return compare(sql, args, "<>", n.Right)
 	case tsl.LtOp:
-		s = sq.Expr(sql+" < ?", append(args, right[0])...)
+		return compare(sql, args, "<", n.Right)
 	case tsl.LteOp:
-		s = sq.Expr(sql+" <= ?", append(args, right[0])...)
+		return compare(sql, args, "<=", n.Right)
 	case tsl.GtOp:
-		s = sq.Expr(sql+" > ?", append(args, right[0])...)
+		return compare(sql, args, ">", n.Right)
 	case tsl.GteOp:
-		s = sq.Expr(sql+" >= ?", append(args, right[0])...)
+		return compare(sql, args, ">=", n.Right)
 	case tsl.InOp:
 		// No value is in an empty list.
 		if len(right) == 0 {
@@ -158,11 +180,9 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IsNotNilOp:
 		s = sq.Expr(sql+" IS NOT NULL", args...)
 	case tsl.LikeOp:
-		t := fmt.Sprintf("%s LIKE ?", sql)
-		s = sq.Expr(t, append(args, right[0])...)
+		return compare(sql, args, "LIKE", n.Right)
 	case tsl.ILikeOp:
-		t := fmt.Sprintf("%s ILIKE ?", sql)
-		s = sq.Expr(t, append(args, right[0])...)
+		return compare(sql, args, "ILIKE", n.Right)
 	case tsl.BetweenOp:
 		t := fmt.Sprintf("%s BETWEEN ? AND ?", sql)
 		s = sq.Expr(t, append(args, right[0], right[1])...)
-- 
2.43.0

