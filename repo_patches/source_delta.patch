From f40149271a2a64cce1409aefe9ac1d973a217de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 001/120] fix: IN with a one element list raised inside
 mysql_in and dropped the row

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..81533b2 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -190,6 +190,8 @@ def mysql_in(a, b):
     if a is None:
         return None
     hs_none = False
+    if not isinstance(b, (list, tuple, set)):
+        b = [b]
     for v in b:
         if v is None:
             hs_none = True
-- 
2.43.0


From c68d4cbe6c6ef7931e6925eb7331aa906acae221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 002/120] fix: LIKE matched any text the pattern was a prefix
 of and ignored the _ wildcard

---
 .../calculaters/mysql_funcs/regexp_funcs.py      | 16 ++++++++++++++--
 syncanysql/compiler.py                           |  3 +--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..7a1d53a 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,21 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
+    pattern, index = "", 0
+    while index < len(r):
+        c = r[index]
+        if c == "\\" and index + 1 < len(r):
+            index += 1
+            pattern += re.escape(r[index])
+        elif c == "%":
+            pattern += ".*"
+        elif c == "_":
+            pattern += "."
+        else:
+            pattern += re.escape(c)
+        index += 1
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.fullmatch(pattern, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..e7719ef 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1917,8 +1917,7 @@ class Compiler(object):
             if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
                 raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
                                                  % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+            return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From 3410020d2985343670a453532f7c5123744d1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 003/120] fix: AVG counted a NULL that followed a non-NULL
 value of its group

---
 syncanysql/calculaters/aggregate_calculater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..7cc60c4 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -187,6 +187,8 @@ class AggregateMinCalculater(AggregateCalculater):
 
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
+        if data_value is None:
+            return state_value
         try:
             state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
-- 
2.43.0


From a01bff16c00ec87a10765047f9318adf80795aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 004/120] fix: JSON_OBJECTAGG lost the merged object when
 batches are reduced

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 7cc60c4..8d71c7b 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -433,7 +433,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From cb55b5ebf4a59c9067c83dfab41520614176e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 005/120] fix: BETWEEN was false instead of NULL for a NULL
 operand, so NOT BETWEEN kept the row

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 9 +++++++++
 syncanysql/compiler.py                              | 7 ++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 81533b2..62daa8a 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -200,6 +200,15 @@ def mysql_in(a, b):
             return 1
     return None if hs_none else 0
 
+@typing_filter(int)
+def mysql_between(a, low, high):
+    left, right = mysql_gte(a, low), mysql_lte(a, high)
+    if left == 0 or right == 0:
+        return 0
+    if left is None or right is None:
+        return None
+    return 1
+
 @typing_filter(int)
 def mysql_not(a):
     if a is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e7719ef..9b4cb33 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1720,11 +1720,8 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
-            return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
-            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
+            return ["@mysql::between"] + [self.compile_calculate(expression.args[name], config, arguments, primary_table, column_join_tables, join_index)
+                                          for name in ("this", "low", "high")]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index, 
-- 
2.43.0


From 1952a62c3390313384cd54c7d12de442c70eb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 006/120] fix: WHERE const < column was pushed to the loader
 with the operator unflipped

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9b4cb33..a873912 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -863,6 +863,9 @@ class Compiler(object):
                 right_column = self.parse_column(right_expression, config, arguments)
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
+                if isinstance(expression, (sqlglot_expressions.GT, sqlglot_expressions.GTE,
+                                           sqlglot_expressions.LT, sqlglot_expressions.LTE)):
+                    return None, None
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
             if left_column is None:
                 return None, None
-- 
2.43.0


From 2c932ebbd35d70aacfc6051947e9eb5a8bb355cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 007/120] fix: a repeated WHERE condition on one column
 replaced or widened the first one

---
 syncanysql/compiler.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a873912..dee25ab 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -895,66 +895,80 @@ class Compiler(object):
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
             condition_querys = config["querys"][condition_column["typing_name"]]
+            # the loader keeps only one value for each of > >= < <= of a column and merges == with in,
+            # a repeated condition has to be left to the calculater
+            if condition_exp != "!=":
+                exclusive_exps = ("==", "in") if condition_exp in ("==", "in") else (condition_exp,)
+                for condition_query in (condition_querys if isinstance(condition_querys, list) else [condition_querys]):
+                    if any(exclusive_exp in condition_query for exclusive_exp in exclusive_exps):
+                        return False
             if isinstance(condition_querys, dict):
                 if condition_exp not in condition_querys:
                     condition_querys[condition_exp] = condition_calculater
-                    return None
+                    return True
                 condition_querys = [condition_querys]
                 config["querys"][condition_column["typing_name"]] = condition_querys
             for condition_query in condition_querys:
                 if condition_exp not in condition_query:
                     condition_query[condition_exp] = condition_calculater
-                    return None
+                    return True
             condition_querys.append({condition_exp: condition_calculater})
-            return None
+            return True
 
         if isinstance(expression, sqlglot_expressions.EQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
+            if not build_query_condition(condition_column, "==", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
+            if not build_query_condition(condition_column, "!=", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
+            if not build_query_condition(condition_column, ">", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
+            if not build_query_condition(condition_column, ">=", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
+            if not build_query_condition(condition_column, "<", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
+            if not build_query_condition(condition_column, "<=", right_calculater):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
+            if not build_query_condition(condition_column, "in", ["@convert_array", right_calculater]):
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.Paren):
-- 
2.43.0


From 80b9c6bdf2e677bca878e6de02cb66716ce14b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 008/120] fix: WHERE column IN (list naming a column) was
 pushed to the loader, where the row's value is not known

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index dee25ab..df98c34 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -875,6 +875,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
-- 
2.43.0


From 8612c8a96515dbd8bdeca413fca0be949b638553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 009/120] fix: a JOIN ON condition comparing another table's
 column with a constant filtered the joined table by a column of that name

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index df98c34..6216703 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2172,7 +2172,9 @@ class Compiler(object):
             calculate_fields = []
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields:
+            if not condition_column or calculate_fields or (
+                    condition_column["table_name"] != join_table["name"]
+                    and not self.is_subquery(value_expression, config, arguments)):
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From f2491fb1f642bf3bbae403b32f651e854b7358bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 010/120] fix: a repeated JOIN ON condition on one column
 replaced or widened the first one

---
 syncanysql/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6216703..c1668ef 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2207,6 +2207,15 @@ class Compiler(object):
             if condition_column["typing_name"] not in join_table["querys"]:
                 join_table["querys"][condition_column["typing_name"]] = {}
             condition_querys = join_table["querys"][condition_column["typing_name"]]
+            # the loader keeps only one value for each of > >= < <= of a column and merges == with in,
+            # a repeated condition has to be left to the calculater
+            if condition_exp != "!=":
+                exclusive_exps = ("==", "in") if condition_exp in ("==", "in") else (condition_exp,)
+                for condition_query in (condition_querys if isinstance(condition_querys, list) else [condition_querys]):
+                    if any(exclusive_exp in condition_query for exclusive_exp in exclusive_exps):
+                        join_table["columns"].setdefault(condition_column["column_name"], condition_column)
+                        join_table["having_expressions"].append(expression)
+                        return None
             if isinstance(condition_querys, dict):
                 if condition_exp not in condition_querys:
                     condition_querys[condition_exp] = condition_calculater
-- 
2.43.0


From 34810a269140a46b8fa5d444660f00a5d688e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 011/120] fix: JOIN ON column IN (list naming a column) was
 pushed to the loader, where the row's value is not known

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c1668ef..3c0cbff 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2170,8 +2170,9 @@ class Compiler(object):
                 return True, condition_column, None
 
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
-                self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
+            if condition_column and not self.is_subquery(value_expression, config, arguments):
+                for value_expression_item in (value_expression if isinstance(value_expression, list) else [value_expression]):
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields or (
                     condition_column["table_name"] != join_table["name"]
                     and not self.is_subquery(value_expression, config, arguments)):
-- 
2.43.0


From f377e7607a42ed8e9652e7d09f9b79426cde612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 012/120] fix: JOIN ON column IN (one computed constant) raised
 because the list was unwrapped

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3c0cbff..96323c9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2201,7 +2201,7 @@ class Compiler(object):
                     return False, condition_column, ["#const", value_items]
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in value_expression]
-                return False, condition_column, ["#make", value_items]
+                return False, condition_column, ["@convert_array", ["#make", value_items]]
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-- 
2.43.0


From 4edd2cd31c57e230535f116f050ffc14fe7a1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 013/120] fix: CASE WHEN without ELSE returned 0 instead of
 NULL when nothing matched

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 96323c9..2a1d9f6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1700,7 +1700,7 @@ class Compiler(object):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 3c7c56e86e1d80c02517e00cebf9d5424fc74e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 014/120] fix: REGEXP, RLIKE and REGEXP_LIKE only matched at
 the start of the text

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 7a1d53a..34de0be 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -29,7 +29,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +38,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From be7d1e97c86b79ebc0bda02609c8d151ec991659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 015/120] fix: LIMIT 0 returned every row

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2a1d9f6..0324cfc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -535,7 +535,9 @@ class Compiler(object):
 
         offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
         limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else 0
-        if limit_value != 0 or offset_value > 0:
+        if limit_value == 0 and expression.args.get("limit"):
+            config["pipelines"].append([">>@array::slice", "$.*|array", 0, 0])
+        elif limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
                     or config["pipelines"] or limit_value <= 0:
-- 
2.43.0


From 6c9bf351787963ae957ba4c7190f1291c96a6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 016/120] fix: UNION matched columns by sorted name instead of
 by position and leaked the other select's column names

---
 syncanysql/compiler.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0324cfc..09eff6d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -355,24 +355,25 @@ class Compiler(object):
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(select_expression, subquery_arguments)
+            if union_column_names and subquery_config.get("aggregate") and isinstance(subquery_config["schema"], dict) \
+                    and list(subquery_config["schema"].keys())[:len(union_column_names)] != union_column_names:
+                subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
+                subquery_config = self.compile_query(maybe_parse("SELECT %s FROM (%s) %s" % (
+                    ", ".join(["`%s` AS `%s`" % names for names in zip(subquery_config["schema"].keys(), union_column_names)]),
+                    self.generate_sql(select_expression), subquery_name), dialect=CompilerDialect), subquery_arguments)
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
             subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             if isinstance(subquery_config["schema"], dict):
-                if not isinstance(config["schema"], dict):
-                    config["schema"] = {}
-                for name in subquery_config["schema"]:
-                    config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
+                subquery_column_names = list(subquery_config["schema"].keys())
                 if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
+                    union_column_names = subquery_column_names
+                    config["schema"] = {name: "$." + name for name in union_column_names}
+                elif union_column_names != subquery_column_names:
+                    subquery_columns = list(subquery_config["schema"].values())
+                    for i in range(min(len(union_column_names), len(subquery_columns))):
+                        subquery_config["schema"][union_column_names[i]] = copy.deepcopy(subquery_columns[i])
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
-- 
2.43.0


From 622e32ec56943fbc6e10d30b6068e8de96f04ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 017/120] fix: LIMIT of a DISTINCT or GROUP BY query was
 applied before duplicates were merged

---
 syncanysql/compiler.py      | 2 +-
 syncanysql/taskers/query.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 09eff6d..65efe49 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -541,7 +541,7 @@ class Compiler(object):
         elif limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..75d3205 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -288,6 +288,7 @@ class QueryTasker(object):
         }
         self.config["aggregate"] = distinct_aggregate
         config["predicate"] = self.config.pop("predicate", None)
+        config["pipelines"] = self.config.pop("pipelines", [])
         self.config["output"] = "&.--." + subquery_name + "::" + self.config["output"].split("::")[-1].split(" ")[0] + " use I"
         self.config.pop("outputer", None)
         self.config.pop("outputer_arguments", None)
-- 
2.43.0


From a2bd4b46f1261bd21ee1138580876cd3622ef643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 018/120] fix: statements left over from a failed script ran
 with the next one

---
 syncanysql/executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..59610ad 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -208,6 +208,8 @@ class Executor(object):
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is not None:
+            self.runners.clear()
         self._thread_local.current_executor = self.parent_executor
 
     def distribute_tasker_index(self):
-- 
2.43.0


From 34fc953edefe96705a2d623562a63168817b8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 019/120] fix: push_memory_datas of the module and of a context
 called a method that does not exist

---
 syncanysql/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..ddd6896 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -68,7 +68,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -249,7 +249,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From 6278bdc69839f26491e8e006fd8d0a12a9eda5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 020/120] fix: ScriptEngine.terminal raised outside a context
 and called a missing method inside one

---
 syncanysql/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index ddd6896..469a9f6 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
@@ -193,7 +193,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
-- 
2.43.0


From cb00ff0dd00baeea55762da9c0c44ac54f68f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 021/120] fix: SQL piped to the command without arguments
 failed on the missing argument

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From fff0e20b7313271cf20fe91b3c62e4d22509bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 022/120] fix: CASE x WHEN took the last of two equal WHEN
 values and let WHEN NULL match

---
 syncanysql/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 65efe49..49d7694 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1694,7 +1694,10 @@ class Compiler(object):
                 if expression.args.get("ifs"):
                     for case_expression in expression.args["ifs"]:
                         case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
+                        case_key = (":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value
+                        if case_value is None or case_key in cases:
+                            continue
+                        cases[case_key] = \
                             self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
                 cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
                     if expression.args.get("default") else None
-- 
2.43.0


From ce3cfe26bd436791034f938755cb34fd3b510e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 023/120] fix: COALESCE with one argument raised while the
 query was running

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 49d7694..4a176a2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1670,6 +1670,8 @@ class Compiler(object):
             ]
         elif isinstance(expression, (sqlglot_expressions.IfNull, sqlglot_expressions.Coalesce)):
             condition_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
+            if isinstance(expression, sqlglot_expressions.Coalesce) and not expression.args.get("expressions"):
+                return condition_column
             if isinstance(expression, sqlglot_expressions.Coalesce):
                 def parse_coalesce(coalesce_expressions):
                     if not coalesce_expressions:
-- 
2.43.0


From f7698d8de63c8b1402580e2627bc603500a61049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 024/120] fix: a simple CASE inside IFNULL, COALESCE or CASE
 returned its compiled form, because the same object was compiled twice

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4a176a2..1f770df 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1683,11 +1683,11 @@ class Compiler(object):
                         coalesce_value_column = parse_coalesce(coalesce_expressions[1:])
                     else:
                         coalesce_value_column = self.compile_calculate(coalesce_expressions[1], config, arguments, primary_table, column_join_tables, join_index)
-                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, coalesce_column]
+                    return ["#if", ["@is_null", copy.deepcopy(coalesce_column)], coalesce_value_column, coalesce_column]
                 value_column = parse_coalesce(expression.args.get("expressions"))
             else:
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
-            return ["#if", ["@is_null", condition_column], value_column, condition_column]
+            return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
             if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
@@ -1715,7 +1715,7 @@ class Compiler(object):
                 if_value_column = self.compile_calculate(if_expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     "#if",
-                    if_value_column if value_column is None else ["@mysql::eq", value_column, if_value_column],
+                    if_value_column if value_column is None else ["@mysql::eq", copy.deepcopy(value_column), if_value_column],
                     self.compile_calculate(if_expression.args["true"], config, arguments, primary_table, column_join_tables,
                                            join_index) if if_expression.args.get("true") else ["#const", 1],
                     build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,
-- 
2.43.0


From df2fc0ee78b727e9f2c3d42699ee343cd9ca34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 025/120] fix: INNER JOIN kept unmatched rows when its key is
 not a column of the first table, and made LEFT JOINs beside it inner

---
 syncanysql/compiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1f770df..6b5edf9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3118,6 +3118,8 @@ class Compiler(object):
 
         inner_calculate_fields = []
         for join_expression in expression.args["joins"]:
+            if join_expression.kind.lower() != "inner":
+                continue
             join_table = {"table_name": self.optimize_rewrite_parse_table(expression, config, arguments,
                                                                           join_expression.args["this"])["table_name"],
                           "related_tables": set([]), "on_expressions": [], "const_expressions": [],
@@ -3129,11 +3131,11 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
-                for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
+            for on_expression in join_table["on_expressions"]:
+                calculate_fields = []
+                self.parse_calculate(on_expression, config, arguments, primary_table, calculate_fields)
+                inner_calculate_fields.extend([calculate_field for calculate_field in calculate_fields
+                                               if calculate_field["table_name"] == join_table["table_name"]])
         if not inner_calculate_fields:
             return expression
 
-- 
2.43.0


From a0b0e17b0076529b266634870115d951ca3dca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 026/120] fix: WHERE on the left table of a RIGHT JOIN was also
 used as ON condition, so IS NULL matched every row

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6b5edf9..0fa2c75 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3088,7 +3088,9 @@ class Compiler(object):
             if join_table["join_type"] == "right":
                 return expression
             sql.append("LEFT JOIN " + self.generate_sql(join_table["table_expression"]))
-            on_expressions = join_table["on_expressions"] + join_table["const_expressions"] + join_table["calculate_expressions"]
+            on_expressions = join_table["on_expressions"] + join_table["const_expressions"]
+            if join_table is not primary_table:
+                on_expressions = on_expressions + join_table["calculate_expressions"]
             if on_expressions:
                 sql.append("ON " + " AND ".join([self.generate_sql(on_expression) for on_expression in on_expressions]))
 
-- 
2.43.0


From 729a8280454e183a2da5310caf59b3b989b1eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 027/120] fix: INNER JOIN beside a RIGHT JOIN was silently
 treated as LEFT JOIN

---
 syncanysql/compiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0fa2c75..957ef12 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3047,6 +3047,11 @@ class Compiler(object):
                                                       join_table["calculate_expressions"])
             join_tables.append(join_table)
 
+        for i in range(1, len(join_tables)):
+            if join_tables[i]["join_type"] == "right" and any([join_table["join_expression"].kind.lower() == "inner"
+                                                               for join_table in join_tables[:i]]):
+                raise SyncanySqlCompileException('unknown join expression, unsupported right join after inner join, related sql "%s"'
+                                                 % self.to_sql(join_tables[i]["join_expression"]))
         selected_table = primary_table
         while True:
             new_primary_table_table = None
@@ -3087,7 +3092,8 @@ class Compiler(object):
         for join_table in join_tables:
             if join_table["join_type"] == "right":
                 return expression
-            sql.append("LEFT JOIN " + self.generate_sql(join_table["table_expression"]))
+            sql.append(("INNER JOIN " if join_table is not primary_table and join_table["join_expression"].kind.lower() == "inner"
+                        else "LEFT JOIN ") + self.generate_sql(join_table["table_expression"]))
             on_expressions = join_table["on_expressions"] + join_table["const_expressions"]
             if join_table is not primary_table:
                 on_expressions = on_expressions + join_table["calculate_expressions"]
-- 
2.43.0


From 020271c8897855b9fd81a17b611f9988f7c66c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 028/120] fix: JOIN ... USING was ignored and silently became a
 cross join

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 957ef12..0907f03 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2026,7 +2026,7 @@ class Compiler(object):
     def parse_joins(self, expression, config, arguments, primary_table, join_expressions):
         join_tables = {}
         for join_expression in join_expressions:
-            if (join_expression.kind and join_expression.kind.lower() != "cross") \
+            if (join_expression.kind and join_expression.kind.lower() != "cross") or join_expression.args.get("using") \
                     or (join_expression.side and join_expression.side.lower() != "left"):
                 raise SyncanySqlCompileException('unknown join expression, unsupported join type, related sql "%s"' % self.to_sql(join_expression))
             if isinstance(join_expression.args["this"], sqlglot_expressions.Table):
-- 
2.43.0


From c85abd3ab2f58b8e8efe1171276f4ec9b191fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 029/120] fix: HAVING ... BETWEEN compared with only one
 operand and kept no rows

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0907f03..1167a69 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1944,6 +1944,8 @@ class Compiler(object):
             return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
+        elif isinstance(expression, sqlglot_expressions.Between):
+            return ["@mysql::between"] + [parse(sqlglot_expressions.Paren(this=expression.args[name]))[0] for name in ("this", "low", "high")]
         else:
             left_calculater, right_calculater = parse(expression)
             func_name = expression.key.lower()
-- 
2.43.0


From bc0c1ec241723bfd0a2c1e9e62a197e7c7a49b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 030/120] fix: LIMIT of a join that repeats rows counted rows
 of the first table instead of result rows

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1167a69..40b3958 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -548,7 +548,9 @@ class Compiler(object):
                 else:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
             else:
-                if offset_value > 0:
+                if join_tables:
+                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value, offset_value + limit_value])
+                elif offset_value > 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
                 arguments["@limit"] = offset_value + limit_value
 
-- 
2.43.0


From 48303ea8a8ac26dfb8288a516ad12b3ea22889b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 031/120] fix: ORDER BY a select alias that is also a column of
 the table sorted by the table's column

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 40b3958..302b3e4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1980,10 +1980,10 @@ class Compiler(object):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
                 if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] or config["schema"][column["column_name"]] == "$." + column["column_name"]:
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
                 elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] or config["schema"][column["column_name"]] == "$." + column["column_name"]:
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and primary_table["table_alias"]:
                 if not config.get("aggregate"):
-- 
2.43.0


From cb71fb0f9ec5ec7f530b80c239c287bf8175b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 032/120] fix: ORDER BY, LIMIT and OFFSET after a UNION applied
 to the last SELECT only

---
 syncanysql/compiler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 302b3e4..ff9f47d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -349,6 +349,9 @@ class Compiler(object):
                 parse(union_expression.args["expression"])
         parse(expression)
 
+        last_expression = select_expressions[-1] = select_expressions[-1].copy()
+        order_expression, limit_expression, offset_expression = [last_expression.args.pop(name, None) for name in ("order", "limit", "offset")]
+
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
         for select_expression in select_expressions:
@@ -379,6 +382,13 @@ class Compiler(object):
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
+        if order_expression:
+            self.compile_order(order_expression.args["expressions"], config, arguments,
+                               {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}})
+        if limit_expression or offset_expression:
+            offset_value = max(int(offset_expression.args["expression"].args["this"]), 0) if offset_expression else 0
+            config["pipelines"].append([">>@array::slice", "$.*|array", offset_value]
+                                       + ([offset_value + int(limit_expression.args["expression"].args["this"])] if limit_expression else []))
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
-- 
2.43.0


From b70c35c16da6605ddb8e42a6f7cf290cb4f1b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 033/120] fix: UNION kept duplicate rows

---
 syncanysql/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ff9f47d..cc8dd00 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -337,12 +337,13 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions = []
+        select_expressions, union_distincts = [], []
         def parse(union_expression):
             if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["this"])
             else:
                 parse(union_expression.args["this"])
+            union_distincts.append(union_expression.args.get("distinct"))
             if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["expression"])
             else:
@@ -382,6 +383,8 @@ class Compiler(object):
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
+        if union_distincts[-1] and isinstance(config["schema"], dict):
+            self.compile_distinct_column(expression, config, arguments, {"outputer_primary_keys": []}, {})
         if order_expression:
             self.compile_order(order_expression.args["expressions"], config, arguments,
                                {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}})
-- 
2.43.0


From cad1d2a88d7b029cc634a30d540bc1057b3c0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 034/120] fix: two correlated conditions on one column, or one
 on a joined table of the subquery, matched nothing

---
 syncanysql/compiler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cc8dd00..f323928 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -985,10 +985,10 @@ class Compiler(object):
             return None
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
-            if condition_column is None or right_calculater is None:
-                return expression
-            if not build_query_condition(condition_column, "in", ["@convert_array", right_calculater]):
-                return expression
+            if (condition_column is None or right_calculater is None
+                    or not build_query_condition(condition_column, "in", ["@convert_array", right_calculater])):
+                if not self.is_subquery_parent_value(expression.args.get("field")):
+                    return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.Paren):
@@ -2505,7 +2505,7 @@ class Compiler(object):
                     parent_column = self.generate_sql(right_condition_column["expression"])
                     column_key = (current_column, parent_column)
                     if column_key in join_parent_columns:
-                        column_alias = join_parent_columns[column_key][1]
+                        column_alias = join_parent_columns[column_key]["column_alias"]
                     else:
                         column_alias = "_subquery_join_parent_" + str(id(condition_expression))
                         join_parent_columns[column_key] = {
@@ -2575,6 +2575,10 @@ class Compiler(object):
         return maybe_parse(" ".join(sql), dialect=CompilerDialect), join_parent_columns, interceptor_expressions
 
 
+    def is_subquery_parent_value(self, expression):
+        # only narrows down what a correlated subquery loads, its rows are matched by key afterwards
+        return isinstance(expression, sqlglot_expressions.Parameter) and expression.name.startswith("_subquery_join_parent_")
+
     def parse_table(self, expression, config, arguments):
         db_name = expression.args["db"].name if expression.args.get("db") else None
         if isinstance(expression.args["this"], sqlglot_expressions.Dot):
-- 
2.43.0


From 4794740c431a2151476453f0a7b763308c0fa87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 035/120] fix: NULL IN (subquery without rows) was NULL instead
 of false

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 62daa8a..bc36e5e 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -187,11 +187,11 @@ def mysql_lte(a, b):
 
 @typing_filter(int)
 def mysql_in(a, b):
-    if a is None:
-        return None
     hs_none = False
     if not isinstance(b, (list, tuple, set)):
         b = [b]
+    if a is None:
+        return None if b else 0
     for v in b:
         if v is None:
             hs_none = True
-- 
2.43.0


From c6386192c8d7e2ccd10c59964bb017c84150bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 036/120] fix: LEFT and RIGHT with a zero or negative length
 return the empty string

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..a33423b 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -119,13 +119,13 @@ def mysql_ucase(s):
 def mysql_left(s, x):
     if s is None:
         return None
-    return ensure_str(s)[:x]
+    return ensure_str(s)[:max(x, 0)]
 
 @typing_filter(str)
 def mysql_right(s, x):
     if s is None:
         return None
-    return ensure_str(s)[-x:]
+    return ensure_str(s)[-x:] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From 8ca389fb3201feb95c40b5825a6264bf44a60ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 037/120] fix: SUBSTRING with a zero or negative position
 counts from the end of the text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index a33423b..c90d761 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -166,8 +166,12 @@ def mysql_substring(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
+    if n < 0:
+        n += len(s) + 1
+    if n <= 0:
+        return ""
     if isinstance(l, int):
-        return s[n - 1: n + l - 1]
+        return s[n - 1: n - 1 + max(l, 0)]
     return s[n - 1:]
 
 @typing_filter(str)
@@ -175,8 +179,12 @@ def mysql_substr(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
+    if n < 0:
+        n += len(s) + 1
+    if n <= 0:
+        return ""
     if isinstance(l, int):
-        return s[n - 1: n + l - 1]
+        return s[n - 1: n - 1 + max(l, 0)]
     return s[n - 1:]
 
 @typing_filter(str)
-- 
2.43.0


From 74b643d4088a7ec034f935cb41c450d6f4042975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 038/120] fix: SUBSTRING_INDEX with a negative count keeps that
 many parts from the right

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c90d761..4b7c1a7 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -193,7 +193,7 @@ def mysql_substring_index(s, d, c):
         return None
     s, d = ensure_str(s), ensure_str(d)
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From f43bbc44d37e8b32e5e7fb6b72d13351ca9588d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 039/120] fix: ELT returns its last argument and NULL for index
 zero

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 4b7c1a7..e785dc9 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -135,7 +135,9 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    if n is None:
+        return None
+    return args[n - 1] if 1 <= n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From 0b9282c0ce19cc4c9005965105755f2029890089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 040/120] fix: ASCII and ORD return the code of the first
 character

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index e785dc9..75b6e5c 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -48,13 +48,15 @@ def mysql_oct(x):
 def mysql_ord(x):
     if x is None:
         return None
-    return ord(ensure_str(x))
+    x = ensure_str(x)
+    return ord(x[0]) if x else 0
 
 @typing_filter(str)
 def mysql_ascii(s):
     if s is None:
         return None
-    return sum([ord(c) for c in ensure_str(s)])
+    s = ensure_str(s)
+    return ord(s[0]) if s else 0
 
 @typing_filter(str)
 def mysql_char(*args):
-- 
2.43.0


From c53a3a94463d7d79344fbad7de8a9c520bc6abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 041/120] fix: FIELD(NULL, ...) is 0 and FIND_IN_SET(s, NULL)
 is NULL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 75b6e5c..0f57f00 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -144,7 +144,7 @@ def mysql_elt(n, *args):
 @typing_filter(int)
 def mysql_field(s, *args):
     if s is None:
-        return None
+        return 0
     try:
         return args.index(s) + 1
     except ValueError:
@@ -152,7 +152,7 @@ def mysql_field(s, *args):
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
     try:
         return ensure_str(ss).split(",").index(s) + 1
-- 
2.43.0


From 249ca1a78d80cbce8a13354df60772763ae9db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 042/120] fix: LENGTH and BIT_LENGTH of a number and CRC32 of a
 text are not NULL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 0f57f00..33c7e13 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -66,13 +66,13 @@ def mysql_char(*args):
 def mysql_bit_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8")) * 8
+    return len(ensure_str(s).encode("utf-8")) * 8
 
 @typing_filter(int)
 def mysql_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8"))
+    return len(ensure_str(s).encode("utf-8"))
 
 @typing_filter(int)
 def mysql_char_length(s):
@@ -248,7 +248,7 @@ def mysql_crc32(s):
     if s is None:
         return None
     import zlib
-    return zlib.crc32(s)
+    return zlib.crc32(ensure_str(s).encode("utf-8"))
 
 @typing_filter(str)
 def mysql_from_base64(s):
-- 
2.43.0


From 05041873c9c235e6daad4a2830991a0411158251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 043/120] fix: CONCAT_WS is unknown and does not skip NULL
 arguments

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 33c7e13..1d7f148 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -92,7 +92,13 @@ def mysql_concat(*args):
 
 @typing_filter(str)
 def mysql_concat_ws(sep, *args):
-    return sep.join(ensure_str(arg) for arg in args)
+    if sep is None:
+        return None
+    return sep.join(ensure_str(arg) for arg in args if arg is not None)
+
+@typing_filter(str)
+def mysql_concatws(*args):
+    return mysql_concat_ws(*args)
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
-- 
2.43.0


From eb4bed6b8a3792d46252b968c8fa6024d707c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 044/120] fix: ROUND(x) and LOG(x) without their optional
 argument are NULL

---
 syncanysql/calculaters/mysql_calculater.py         | 2 +-
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_calculater.py b/syncanysql/calculaters/mysql_calculater.py
index dd43b1b..78ff29a 100644
--- a/syncanysql/calculaters/mysql_calculater.py
+++ b/syncanysql/calculaters/mysql_calculater.py
@@ -26,7 +26,7 @@ class MysqlCalculater(Calculater):
         if func is not None and isinstance(func, types.FunctionType):
             try:
                 argcount, varnames_count = func.__code__.co_argcount, len(func.__code__.co_varnames)
-                if argcount == varnames_count:
+                if argcount == varnames_count and not func.__defaults__:
                     if argcount == 0:
                         self.calculate = self.calculate0
                     elif argcount == 1:
diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..8f442d8 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -199,7 +199,7 @@ def mysql_rand():
     return random.random()
 
 @typing_filter(float)
-def mysql_round(x, y=2):
+def mysql_round(x, y=0):
     if x is None or y is None:
         return None
     try:
-- 
2.43.0


From c5868469d5a03a831dd6aa0d83ba10b3fb42f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 045/120] fix: REGEXP_REPLACE with a position drops the text
 before it

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 34de0be..c8088c2 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -71,7 +71,7 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
         flags = parse_flags(match_type)
         cs = s[pos-1:]
         if occurrence <= 0:
-            return re.sub(r, rs, cs, count=0, flags=flags)
+            return s[:pos-1] + re.sub(r, rs, cs, count=0, flags=flags)
         while cs:
             m = re.search(r, cs, flags)
             if not m:
-- 
2.43.0


From 2272db7aa4172eb270eb1653f86bd6884c8cbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 046/120] fix: Latin-1 characters of a text literal are
 corrupted

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f323928..6a6f8e1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2769,7 +2769,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From cca20b80f1b9b6010cd7a41074a1659ada7b20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 047/120] fix: the sign of a negated variable or hexadecimal
 literal is dropped

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6a6f8e1..42b6469 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2933,7 +2933,7 @@ class Compiler(object):
 
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
-            return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
+            return isinstance(expression.args["this"], sqlglot_expressions.Literal) and expression.args["this"].is_number
         if isinstance(expression, sqlglot_expressions.Parameter):
             return not isinstance(expression, AssignParameter)
         return isinstance(expression, (sqlglot_expressions.Literal, sqlglot_expressions.Boolean,
@@ -2945,7 +2945,7 @@ class Compiler(object):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
                                            sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In, sqlglot_expressions.Not,
                                            sqlglot_expressions.Is, sqlglot_expressions.Between, sqlglot_expressions.Like, sqlglot_expressions.Func,
-                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate))
+                                           sqlglot_expressions.Binary, sqlglot_expressions.Neg, sqlglot_expressions.SubqueryPredicate))
         return isinstance(expression, (sqlglot_expressions.Neg, sqlglot_expressions.Binary, sqlglot_expressions.Select,
                                        sqlglot_expressions.Subquery, sqlglot_expressions.Union,
                                        sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter))
-- 
2.43.0


From 55ddd4504a15577a6517cba9d2cdb94845b8d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 048/120] fix: AND and OR are given the same precedence

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 42b6469..8d2d0cd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -53,6 +53,12 @@ class CompilerDialect(sqlglot_dialects.Dialect):
             expression = self._parse_conjunction() or self._parse_function() or self._parse_id_var()
             return self.expression(AssignParameter, this=this, expression=expression, wrapped=wrapped)
 
+        def _parse_conjunction(self):
+            return self._parse_tokens(self._parse_and_conjunction, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
+
+        def _parse_and_conjunction(self):
+            return self._parse_tokens(self._parse_equality, {sqlglot_parser.TokenType.AND: sqlglot_expressions.And})
+
         def _parse_limit(self, this=None, top=False):
             if top or not self._match(sqlglot_parser.TokenType.LIMIT, False):
                 return sqlglot_parser.Parser._parse_limit(self, this, top)
-- 
2.43.0


From 4788278892cf201ca5409984370b7282d3d9a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 049/120] fix: windows with different partition keys share
 their partitions

---
 syncanysql/compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8d2d0cd..8e99d0e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1432,9 +1432,11 @@ class Compiler(object):
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
                                                      join_tables, value_expressions) if value_expressions else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
-            partition_calculate = "$.partition_key" if partition_column is not None else None
+            window_id = uuid.uuid5(uuid.NAMESPACE_OID, repr([partition_column, order_column])).hex
+            partition_key, order_key = "partition_key_" + window_id, "order_key_" + window_id
+            partition_calculate = ("$." + partition_key) if partition_column is not None else None
             if order_column is not None:
-                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"]}
+                order_calculate = {"valuer": "$." + order_key, "orders": order_column["orders"]}
             elif is_window_aggregate_calculate:
                 order_calculate = {"valuer": ["#const", 0], "orders": []}
             else:
@@ -1450,10 +1452,10 @@ class Compiler(object):
                 aggregate_calculate.append([":" + final_calculate, "$.*"])
             window_aggregate_column = ["#make", {}, aggregate_calculate]
             if partition_column is not None:
-                window_aggregate_column[1]["partition_key"] = partition_column[0] \
+                window_aggregate_column[1][partition_key] = partition_column[0] \
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
-                window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
+                window_aggregate_column[1][order_key] = order_column["valuer"][0] \
                     if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
-- 
2.43.0


From 118e2723f4a5466b84046902275fa99aba161895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 050/120] fix: a window ordered by several keys compares the
 wrong values

---
 syncanysql/calculaters/__init__.py          | 1 +
 syncanysql/calculaters/window_calculater.py | 6 ++++++
 syncanysql/compiler.py                      | 6 ++++--
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..5c2459c 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -36,6 +36,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..293f0bd 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -4,9 +4,15 @@
 
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter
+from syncany.utils import CmpValue
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, values, descs):
+        return tuple(CmpValue(value, desc) for value, desc in zip(values, descs))
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8e99d0e..876d3e6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1436,7 +1436,8 @@ class Compiler(object):
             partition_key, order_key = "partition_key_" + window_id, "order_key_" + window_id
             partition_calculate = ("$." + partition_key) if partition_column is not None else None
             if order_column is not None:
-                order_calculate = {"valuer": "$." + order_key, "orders": order_column["orders"]}
+                order_calculate = {"valuer": "$." + order_key, "orders": order_column["orders"] if len(order_column["orders"]) == 1
+                                   else [[order_key, False]]}
             elif is_window_aggregate_calculate:
                 order_calculate = {"valuer": ["#const", 0], "orders": []}
             else:
@@ -1456,7 +1457,8 @@ class Compiler(object):
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
                 window_aggregate_column[1][order_key] = order_column["valuer"][0] \
-                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
+                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [
+                        ":@window_order_key", "$.*", ["#const", [bool(order[1]) for order in order_column["orders"]]]]]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
 
-- 
2.43.0


From 2ee5a1c47e205dde601735becbd0f8e19d105728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 051/120] fix: a join loses the WINDOW clause of its query

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 876d3e6..65ef2a3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3043,6 +3043,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
@@ -3141,6 +3143,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
@@ -3201,6 +3205,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
-- 
2.43.0


From bece35d5c13de97f0fb7d12dab4703dafae49dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 052/120] fix: INSERT VALUES casts the rows of a column to the
 type of its first number

---
 syncanysql/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 65ef2a3..36e74fe 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -329,11 +329,12 @@ class Compiler(object):
                 data = {}
                 for i in range(len(data_expression.args["expressions"])):
                     value_expression = data_expression.args["expressions"][i]
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
+                    data[columns[i][0]] = self.parse_const(value_expression, config, arguments)["value"]
                 datas.append(data)
+            for column in columns:
+                value_types = {type(data[column[0]]) for data in datas if column[0] in data}
+                if column[1] is None and len(value_types) == 1 and value_types <= {int, float, bool}:
+                    column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
-- 
2.43.0


From 2cfdc6eb356cc4c13293032845caa101616776d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 053/120] fix: INSERT of a UNION ignores the requested update
 type

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 36e74fe..7bc9d7e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -400,6 +400,8 @@ class Compiler(object):
             config["pipelines"].append([">>@array::slice", "$.*|array", offset_value]
                                        + ([offset_value + int(limit_expression.args["expression"].args["this"])] if limit_expression else []))
         config["input"] = "&.--." + query_name + "::" + output_primary_key
+        if " use " in config["output"]:
+            output_type = config["output"].split(" use ")[-1]
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
-- 
2.43.0


From 0777b44629f5f7edfafc4a6852ba0625b94ef9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 054/120] fix: a lower case update type names no outputer

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7bc9d7e..a44b374 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -309,7 +309,7 @@ class Compiler(object):
                 for typing_option in table_info["typing_options"]:
                     if typing_option.upper() not in ("I", "U", "UI", "UDI", "DI"):
                         continue
-                    update_type = typing_option
+                    update_type = typing_option.upper()
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
                                         "id", " use ", update_type])
-- 
2.43.0


From 1098a23803e088471f1952a664428c34792a059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 055/120] fix: the rows of a CTE stay behind as a table and
 join the next CTE of that name

---
 syncanysql/compiler.py      | 32 +++++++++++++++++++++++++++++---
 syncanysql/taskers/query.py |  3 ++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a44b374..644e6ca 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -229,7 +229,7 @@ class Compiler(object):
         })
 
         if expression.args.get("with"):
-            self.compile_with(expression.args.get("with"), config, arguments)
+            self.compile_with(expression, config, arguments)
         if isinstance(expression, sqlglot_expressions.Union):
             self.compile_union(expression, config, arguments)
         elif isinstance(expression, sqlglot_expressions.Insert):
@@ -241,8 +241,9 @@ class Compiler(object):
         return config
 
     def compile_with(self, expression, config, arguments):
-        for sub_expression in expression.args["expressions"]:
-            table_name = sub_expression.args["alias"].name
+        with_expression = expression.args["with"]
+        for sub_expression in with_expression.args["expressions"]:
+            table_name = self.rename_with_table(expression, sub_expression)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
@@ -256,6 +257,31 @@ class Compiler(object):
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
             config["dependencys"].append(subquery_config)
 
+    def rename_with_table(self, expression, sub_expression):
+        with_expression, name = expression.args["with"], sub_expression.args["alias"].name
+        table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + name
+        target_expression = expression.args["this"] if isinstance(expression, sqlglot_expressions.Insert) else None
+        hidden_expressions = with_expression.args["expressions"]
+        hidden_expressions = hidden_expressions[:hidden_expressions.index(sub_expression) + (0 if with_expression.args.get("recursive") else 1)]
+
+        def is_hidden(table_expression):
+            while table_expression is not expression:
+                if table_expression is target_expression or any(table_expression is hidden for hidden in hidden_expressions):
+                    return True
+                inner_with_expression = table_expression.args.get("with")
+                if inner_with_expression and any(inner.args["alias"].name == name for inner in inner_with_expression.args["expressions"]):
+                    return True
+                table_expression = table_expression.parent
+            return False
+
+        for table_expression in list(expression.find_all(sqlglot_expressions.Table)):
+            if table_expression.name != name or table_expression.args.get("db") or is_hidden(table_expression):
+                continue
+            table_expression.set("this", sqlglot_expressions.to_identifier(table_name))
+            if not table_expression.args.get("alias"):
+                table_expression.set("alias", sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier(name)))
+        return table_name
+
     def compile_subquery(self, expression, arguments):
         if not isinstance(expression, sqlglot_expressions.Subquery):
             table_name = "anonymous"
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 75d3205..3ea96b5 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -391,7 +391,8 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_") \
+                    or tasker.outputer.name.startswith("--.__withquery_"):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From 2ccab8f00364210611a0249682491ca89ddaeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 056/120] fix: IN lists use the value a variable has when the
 statement is compiled

---
 syncanysql/compiler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 644e6ca..149d934 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -924,7 +924,8 @@ class Compiler(object):
                 return None, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_const(value_expression_item, config, arguments) and not isinstance(value_expression_item, sqlglot_expressions.Parameter)
+                        for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
@@ -1937,7 +1938,8 @@ class Compiler(object):
                 return left_calculater, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_const(value_expression_item, config, arguments) and not isinstance(value_expression_item, sqlglot_expressions.Parameter)
+                        for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
@@ -2259,7 +2261,8 @@ class Compiler(object):
                     value_column = ["@convert_array", value_column, ":$.:0"]
                 return False, condition_column, value_column
             if isinstance(value_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in value_expression]):
+                if all([self.is_const(value_expression_item, config, arguments) and not isinstance(value_expression_item, sqlglot_expressions.Parameter)
+                        for value_expression_item in value_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in value_expression]
                     return False, condition_column, ["#const", value_items]
-- 
2.43.0


From 0f3f9e93dd61fb9e5fac3beda4d6ad6b71e8267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 057/120] fix: CASE branches and tuples use the value a
 variable has when the statement is compiled

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 149d934..419219b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1745,6 +1745,7 @@ class Compiler(object):
             return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
             if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
+                                                    and not isinstance(case_expression.args["this"], sqlglot_expressions.Parameter)
                                                     for case_expression in expression.args.get("ifs", [])]):
                 cases = {}
                 cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
@@ -1811,7 +1812,8 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Star):
             return "$.*"
         elif isinstance(expression, sqlglot_expressions.Tuple):
-            if all([self.is_const(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
+            if all([self.is_const(tuple_expression, config, arguments) and not isinstance(tuple_expression, sqlglot_expressions.Parameter)
+                    for tuple_expression in expression.args["expressions"]]):
                 value_columns = [self.parse_const(tuple_expression, config, arguments)["value"]
                                  for tuple_expression in expression.args["expressions"]]
                 return ["#const", value_columns]
-- 
2.43.0


From d6d0f302efeae9e5267f66ddbe3ac463abe5f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 058/120] fix: a table filled by SELECT * shares its rows with
 the source

---
 syncanysql/taskers/query.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 3ea96b5..98edad7 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -52,6 +52,12 @@ class ReduceHooker(Hooker):
         self.tasker.run_reduce(self.executor, self.session_config, self.manager, self.arguments, False)
 
 
+class CopyHooker(Hooker):
+    # unchanged rows are not shared with the collection they are written to
+    def loaded(self, tasker, datas):
+        return [copy.copy(data) for data in datas]
+
+
 class QueryTaskerTemporaryMemoryManager(object):
     def __init__(self):
         self.collections = defaultdict(int)
@@ -146,6 +152,8 @@ class QueryTasker(object):
         if self.reduce_config and "_aggregate_key_" in self.reduce_config["schema"]:
             tasker.add_hooker(ReduceHooker(executor, session_config, manager, arguments,
                                            self, copy.deepcopy(self.config), batch, aggregate))
+        if self.config["schema"] == "$.*" and isinstance(self.config["output"], str) and self.config["output"].startswith("&.--."):
+            tasker.add_hooker(CopyHooker())
         arguments = self.compile_tasker(arguments, tasker)
         self.tasker, self.dependency_taskers, self.arguments = tasker, dependency_taskers, arguments
         return [self]
-- 
2.43.0


From 50fd1f9ae1466346a4ae7fe0a7e1c236493d5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 059/120] fix: INSERT ... WITH reads the CTE's name as an empty
 table

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 419219b..96b2391 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -342,6 +342,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.compile_with(select_expression, config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
-- 
2.43.0


From 57c02390c1ede09e8b444d59dff0a1ad15177ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 060/120] fix: an aggregate selected before the column its
 query is grouped by loses the grouping

---
 syncanysql/compiler.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 96b2391..ba2c7cd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -488,7 +488,7 @@ class Compiler(object):
         select_expressions = expression.args.get("expressions")
         if not select_expressions:
             raise SyncanySqlCompileException('unknown select columns, related sql "%s"' % self.to_sql(expression))
-        config["schema"] = {}
+        config["schema"], aggregate_columns = {}, []
         for select_expression in select_expressions:
             if isinstance(select_expression, sqlglot_expressions.Star):
                 if not self.compile_select_star_column(select_expression, config, arguments, primary_table, join_tables):
@@ -547,8 +547,8 @@ class Compiler(object):
                                            [window_aggregate_expression], join_tables, windows)
                 continue
             if aggregate_expression:
-                self.compile_aggregate_column(aggregate_expression, config, arguments, primary_table, column_alias,
-                                              group_expression, [aggregate_expression], join_tables)
+                config["schema"][column_alias] = None
+                aggregate_columns.append((aggregate_expression, column_alias, [aggregate_expression]))
                 continue
 
             window_aggregate_expressions = []
@@ -561,11 +561,15 @@ class Compiler(object):
             aggregate_expressions = []
             self.parse_aggregate(calculate_expression, config, arguments, aggregate_expressions)
             if aggregate_expressions:
-                self.compile_aggregate_column(calculate_expression, config, arguments, primary_table, column_alias,
-                                              group_expression, aggregate_expressions, join_tables)
+                config["schema"][column_alias] = None
+                aggregate_columns.append((calculate_expression, column_alias, aggregate_expressions))
                 continue
             self.compile_select_calculate_column(calculate_expression, config, arguments, primary_table, column_alias,
                                                  join_tables)
+        if isinstance(config["schema"], dict):
+            for aggregate_expression, column_alias, aggregate_expressions in aggregate_columns:
+                self.compile_aggregate_column(aggregate_expression, config, arguments, primary_table, column_alias,
+                                              group_expression, aggregate_expressions, join_tables)
 
         where_expression = expression.args.get("where")
         if where_expression and isinstance(where_expression, sqlglot_expressions.Where):
@@ -1194,9 +1198,9 @@ class Compiler(object):
                 column_alias = list(config["schema"].keys())[0]
             else:
                 raise SyncanySqlCompileException('error group by, unknown column, related sql "%s"' % self.to_sql(expression))
-        group_column = self.compile_aggregate_key(expression, config, arguments, primary_table, join_tables)
         if "aggregate" not in config:
             config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
+        group_column = self.compile_aggregate_key(expression, config, arguments, primary_table, join_tables)
         aggregate_column = {
             "key": group_column[0] if len(group_column) == 1 else ["#make", group_column, [":@aggregate_key", "$.*"]],
             "value": config["schema"][column_alias],
@@ -1246,6 +1250,8 @@ class Compiler(object):
 
     def compile_aggregate_column(self, expression, config, arguments, primary_table, column_alias, group_expression,
                                  aggregate_expressions, join_tables):
+        if "aggregate" not in config:
+            config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
         group_column = self.compile_aggregate_key(group_expression, config, arguments, primary_table, join_tables)
         aggregate_value_expressions = []
         for i in range(len(aggregate_expressions)):
@@ -1267,8 +1273,6 @@ class Compiler(object):
                     value_expressions = [aggregate_expression.args.get("this")]
             aggregate_value_expressions.append(value_expressions)
 
-        if "aggregate" not in config:
-            config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
         if len(aggregate_expressions) == 1 and aggregate_expressions[0] is expression:
             value_column = self.compile_aggregate_value(aggregate_expressions[0], config, arguments, primary_table, join_tables,
                                                         aggregate_value_expressions[0])
@@ -1324,7 +1328,8 @@ class Compiler(object):
             if self.is_column(group_expression, config, arguments):
                 group_expression_column = self.parse_column(group_expression, config, arguments)
                 if isinstance(config["schema"], dict) and not group_expression_column["table_name"] \
-                        and group_expression_column["column_name"] in config["schema"]:
+                        and config["schema"].get(group_expression_column["column_name"]) is not None \
+                        and group_expression_column["column_name"] not in config["aggregate"]["schema"]:
                     group_column.append(config["schema"][group_expression_column["column_name"]])
                     continue
                 if not group_expression_column["table_name"] or group_expression_column["table_name"] == primary_table["table_name"]:
-- 
2.43.0


From 623fffe354725612f8d8a5ff95069613eb374721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 061/120] fix: a variable a query will assign hides its outer
 value before it is assigned

---
 syncanysql/taskers/into.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..62c20b5 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -10,9 +10,10 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            if variable in executor.env_variables:
-                continue
-            executor.env_variables[variable] = None
+            try:
+                executor.env_variables.get_value(variable)
+            except KeyError:
+                executor.env_variables[variable] = None
         self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
@@ -49,16 +50,11 @@ class IntoTasker(object):
                     value = [{key: data.get(key) for key in schema_keys} for data in datas]
 
             if len(self.config["variables"]) == 1:
-                if value is None:
-                    if self.config["variables"][0] in executor.env_variables:
-                        executor.env_variables[self.config["variables"][0]] = None
-                else:
-                    executor.env_variables[self.config["variables"][0]] = value
+                executor.env_variables[self.config["variables"][0]] = value
             else:
                 for i in range(len(self.config["variables"])):
                     if i >= len(schema_keys):
-                        if self.config["variables"][i] in executor.env_variables:
-                            executor.env_variables[self.config["variables"][i]] = None
+                        executor.env_variables[self.config["variables"][i]] = None
                         continue
                     if isinstance(value, dict):
                         executor.env_variables[self.config["variables"][i]] = value[schema_keys[i]]
-- 
2.43.0


From 84dc004abb9e0b8aa31279615265f3155e909212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 062/120] fix: a quote in a comment swallows the statements
 after it

---
 syncanysql/parser.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..3bd5910 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -55,12 +55,31 @@ class SqlParser(object):
         self.next()
         raise EOFError(self.sql[start_index:])
 
+    def skip_comment(self):
+        start_index, segment = self.index, self.sql[self.index: self.index + 2]
+        if segment == "/*":
+            end_index = self.sql.find("*/", start_index + 2)
+            if end_index < 0:
+                raise EOFError(self.sql[start_index:])
+            end_index += 2
+        elif segment == "--" or segment[:1] == "#":
+            end_index = self.sql.find("\n", start_index) + 1
+            if end_index <= 0:
+                end_index = self.len
+        else:
+            return False
+        while self.index < end_index:
+            self.next()
+        return True
+
     def read_util(self, cs, escape_chars=('"', "'")):
         start_index = self.index
         while self.index < self.len:
             if self.sql[self.index] in escape_chars:
                 self.skip_escape(self.sql[self.index])
                 continue
+            if escape_chars and self.skip_comment():
+                continue
             if self.sql[self.index: self.index + len(cs)] != cs:
                 self.next()
                 continue
@@ -71,7 +90,7 @@ class SqlParser(object):
         while self.index < self.len:
             self.read_util(c)
             self.next()
-            start_index, end_index, segment = self.read_util(c)
+            start_index, end_index, segment = self.read_util(c, ())
             self.next()
             return start_index, end_index, segment
         raise EOFError()
@@ -87,24 +106,7 @@ class SqlParser(object):
             if self.sql[self.index] in ('`', '"', "'"):
                 self.skip_escape(self.sql[self.index])
                 continue
-            if self.sql[self.index] == "#":
-                try:
-                    self.read_util('\n')
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            segment = self.sql[self.index: self.index + 2]
-            if segment == "--":
-                try:
-                    self.read_util('\n')
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            if segment == "/*":
-                self.read_util("*/")
-                self.next()
+            if self.skip_comment():
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 474645c8e2b4a664953f803ca8698f8acaa2604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 063/120] fix: IN @list is NULL in a condition evaluated in
 memory

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ba2c7cd..05dd972 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1875,8 +1875,8 @@ class Compiler(object):
                     ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
                                for item_expression in expression.args["expressions"]]]
                 ]
-            if expression.args.get("query"):
-                query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
+            if expression.args.get("query") or expression.args.get("field"):
+                query_value_calculate = self.compile_calculate(expression.args.get("query") or expression.args["field"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else (":@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-- 
2.43.0


From 84b357202a3fbf6bfbbf1284bb4c2e29fe0e04ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 064/120] fix: files of another type or in a directory of
 similar name replace each other's database

---
 syncanysql/compiler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 05dd972..04ed702 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2712,14 +2712,13 @@ class Compiler(object):
                 if "databases" not in config:
                     config["databases"] = []
                 for d in config["databases"]:
-                    if d["name"] == path_db_name:
-                        d.update({"name": path_db_name, "driver": db_driver, "path": path})
-                        database = d
-                        break
                     if d.get("driver") == db_driver and d.get("path") == path and not db_params:
                         database = d
                         break
                 if not database:
+                    database_names = {d["name"] for d in config["databases"]}
+                    while path_db_name in database_names:
+                        path_db_name = path_db_name + "_"
                     database = {"name": path_db_name, "driver": db_driver, "path": path}
                     config["databases"].append(database)
                 if db_params:
-- 
2.43.0


From 1bb00fcbc18099cf742ac8936e38f3719eb97fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 065/120] fix: a correlated subquery with AVG, COUNT(DISTINCT)
 or a computed aggregate is NULL

---
 syncanysql/calculaters/query_tasker_calculater.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 1c4706a..47f4e54 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -16,6 +16,7 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
         self.executor = None
         self.tasker = None
         self.tasker_index = 0
+        self.collection_name = None
 
     def start(self, tasker, loader, arguments, task_config, **kwargs):
         current_tasker = _thread_local.current_tasker
@@ -44,7 +45,7 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                         if not key or not isinstance(key, str):
                             continue
                         executor.env_variables["@" + key] = value
-                database, collection_name = self.tasker.tasker.outputer.db, self.tasker.tasker.outputer.name
+                database, collection_name = self.tasker.tasker.outputer.db, self.collection_name
                 executor.execute()
                 query = database.query(collection_name, ["id"])
                 datas = query.commit()
@@ -64,7 +65,8 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
             self.tasker_index = current_executor.distribute_tasker_index()
         with Executor(current_executor.manager, current_executor.session_config, current_executor) as executor:
             config = copy.deepcopy(self.config)
-            config["output"] = "&.--.__queryTasker_" + str(id(executor)) + "::" + config["output"].split("::")[-1]
+            self.collection_name = "--.__queryTasker_" + str(id(executor))
+            config["output"] = "&." + self.collection_name + "::" + config["output"].split("::")[-1]
             config["name"] = config["name"] + "#queryTasker"
             tasker = QueryTasker(config, is_inner_subquery=True)
             tasker.tasker_index = self.tasker_index
-- 
2.43.0


From e7924a801f57ce1f6ba58747276d5dbd462abb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 066/120] fix: a computed aggregate in a correlated subquery
 covers all outer rows together

---
 syncanysql/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 04ed702..95d05d3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2590,9 +2590,10 @@ class Compiler(object):
         for select_expression in sub_expression.args["expressions"]:
             select_sql.append(self.generate_sql(select_expression))
             if not has_aggregate_column:
-                has_aggregate_column = self.is_aggregate(select_expression.args["this"] if isinstance(select_expression,
-                                                                                         sqlglot_expressions.Alias) else select_expression,
-                                                         config, arguments)
+                aggregate_expressions = []
+                self.parse_aggregate(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
+                                     else select_expression, config, arguments, aggregate_expressions)
+                has_aggregate_column = bool(aggregate_expressions)
         for _, join_parent_column in join_parent_columns.items():
             select_sql.append(self.generate_sql(join_parent_column["current_expression"]) + " AS " + join_parent_column["column_alias"])
         for _, join_select_column in join_select_columns.items():
-- 
2.43.0


From 0cb61b700a21d2ac709658699993136df683798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 067/120] fix: windows, ORDER BY and LIMIT computed in memory
 are applied to every batch separately

---
 syncanysql/taskers/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 98edad7..d7b0e0e 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -126,6 +126,9 @@ class QueryTasker(object):
             dependency_tasker.start(name, executor, session_config, manager, dependency_arguments)
             dependency_taskers.append(dependency_tasker)
 
+        if (aggregate and aggregate["window_schema"]) \
+                or any(pipeline[0] in (">>@sort", ">>@array::slice") for pipeline in self.config.get("pipelines", [])):
+            arguments["@batch"] = 0     # needs all rows at once
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
-- 
2.43.0


From 7ba9e6efc2817e74341067608127e19c82aa5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 068/120] fix: whether the home or the current directory's
 config file wins is random

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..39dd359 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,8 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From 1aa0ffcc00447f0696cac15448efc41c5490f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 069/120] fix: a module given to use() makes every statement
 fail

---
 syncanysql/config.py       | 8 ++++++--
 syncanysql/taskers/show.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 39dd359..2210897 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -297,12 +297,16 @@ class SessionConfig(GlobalConfig):
         self.merged_config = None
         self.tasker_extend_config = None
 
+    def copy_config(self, config):
+        # imports may be functions or modules, which can not be copied
+        return {key: copy.copy(value) if key == "imports" else copy.deepcopy(value) for key, value in config.items()}
+
     def get(self):
         if self.merged_config is None:
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
+                self.merge_config(self.copy_config(self.parent_config.get()))
+                self.merge_config(self.copy_config(session_config))
             finally:
                 self.merged_config, self.config = self.config, session_config
         return self.merged_config
diff --git a/syncanysql/taskers/show.py b/syncanysql/taskers/show.py
index 99bf7ee..b44a83f 100644
--- a/syncanysql/taskers/show.py
+++ b/syncanysql/taskers/show.py
@@ -36,7 +36,7 @@ class ShowCommandTasker(object):
         self.print(fields, datas)
 
     def show_imports(self, session_config):
-        imports = copy.deepcopy(session_config.get().get("imports", {}))
+        imports = session_config.get().get("imports", {})
         fields, datas = ["name", "alias"], []
         for alias, name in imports.items():
             datas.append({
-- 
2.43.0


From ddd8270e79c81cbe62e05a2a9ca789f1cf6dd269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 070/120] fix: a context does not see what is set in its engine
 after its first statement

---
 syncanysql/config.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 2210897..5dc4770 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -25,6 +25,7 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.revision = 0
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -34,7 +35,11 @@ class GlobalConfig(object):
     def get(self):
         return self.config
 
+    def get_revision(self):
+        return self.revision
+
     def set(self, key, value):
+        self.revision += 1
         if not isinstance(key, SequenceTypes):
             key = str(key).split(".")
         if not key:
@@ -295,14 +300,19 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_revision = None
         self.tasker_extend_config = None
 
+    def get_revision(self):
+        return self.revision, self.parent_config.get_revision()
+
     def copy_config(self, config):
         # imports may be functions or modules, which can not be copied
         return {key: copy.copy(value) if key == "imports" else copy.deepcopy(value) for key, value in config.items()}
 
     def get(self):
-        if self.merged_config is None:
+        if self.merged_config is None or self.merged_revision != self.get_revision():
+            self.merged_revision, self.tasker_extend_config = self.get_revision(), None
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
                 self.merge_config(self.copy_config(self.parent_config.get()))
@@ -323,8 +333,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
-- 
2.43.0


From 25638f8b031cf7ee0c1c65e7d584758635a1a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 071/120] fix: SET GLOBAL of a configuration raises

---
 syncanysql/taskers/set.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..54a2a23 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,7 +33,6 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
-            session_config.merge()
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From 7c046112ae6fe4986f3f26de89642f1c73e89e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 072/120] fix: a virtual view set in a session hides the
 database's other views

---
 syncanysql/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 5dc4770..0eb5163 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -247,7 +247,11 @@ class GlobalConfig(object):
                     vs = {c["name"]: c for c in self.config[k]}
                     for d in v:
                         if d["name"] in vs:
+                            virtual_views = {v["name"]: v for v in vs[d["name"]].get("virtual_views") or []}
+                            virtual_views.update({v["name"]: v for v in d.get("virtual_views") or []})
                             vs[d["name"]].update(d)
+                            if virtual_views:
+                                vs[d["name"]]["virtual_views"] = list(virtual_views.values())
                         else:
                             self.config[k].append(d)
             elif k == "pipelines":
-- 
2.43.0


From f8fcfd437d14ac3d17843464c532e6e3f9806948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 073/120] fix: the configured encoding and date formats are not
 used for file tables

---
 syncanysql/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 95d05d3..b31ff48 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2631,6 +2631,11 @@ class Compiler(object):
         # only narrows down what a correlated subquery loads, its rows are matched by key afterwards
         return isinstance(expression, sqlglot_expressions.Parameter) and expression.name.startswith("_subquery_join_parent_")
 
+    def get_file_formats(self):
+        session_config = self.config.get()
+        return {key: session_config[key] for key in ("encoding", "datetime_format", "date_format", "time_format")
+                if session_config.get(key)}
+
     def parse_table(self, expression, config, arguments):
         db_name = expression.args["db"].name if expression.args.get("db") else None
         if isinstance(expression.args["this"], sqlglot_expressions.Dot):
@@ -2683,7 +2688,8 @@ class Compiler(object):
                     database = d
                     break
             if not database:
-                database = {"name": "stdio-" + format_type, "driver": "textline", "format": format_type}
+                database = dict({"name": "stdio-" + format_type, "driver": "textline", "format": format_type},
+                                **self.get_file_formats())
                 config["databases"].append(database)
             db_name, table_name = database["name"], "&1"
         elif not db_name:
@@ -2720,7 +2726,7 @@ class Compiler(object):
                     database_names = {d["name"] for d in config["databases"]}
                     while path_db_name in database_names:
                         path_db_name = path_db_name + "_"
-                    database = {"name": path_db_name, "driver": db_driver, "path": path}
+                    database = dict({"name": path_db_name, "driver": db_driver, "path": path}, **self.get_file_formats())
                     config["databases"].append(database)
                 if db_params:
                     database.update(db_params)
-- 
2.43.0


From dc2f4001621958942e72c804f01ac8ce3368719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 074/120] fix: SET of a database parameter to plain text is
 ignored

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 0eb5163..1e6a8cc 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -100,7 +100,7 @@ class GlobalConfig(object):
                     try:
                         set_database[key[2]] = json.loads(value)
                     except:
-                        pass
+                        set_database[key[2]] = value
         elif key[0] in ("imports", "sources"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
-- 
2.43.0


From 03c9ed3ea37be6aca1cb3f7fd83df3643f3de9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 075/120] fix: SET @virtual_views sets a database of that name

---
 syncanysql/taskers/set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 54a2a23..6a7d8de 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -14,7 +14,8 @@ class SetCommandTasker(object):
         if name in ("databases", "imports", "sources", "defines", "variables", "options", "caches"):
             self.set_config(session_config, key[1:], is_global)
         elif name == "virtual_views":
-            self.set_config(session_config, "databases." + key[1:], is_global)
+            database_name, _, virtual_view_key = key[15:].partition(".")
+            self.set_config(session_config, "databases." + database_name + ".virtual_views." + virtual_view_key, is_global)
         elif key[:7] == "@config":
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
-- 
2.43.0


From b2d9005e49f313c3451bdd06d95a736e41bb6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 076/120] fix: raw SQL holding a quoted text can not be
 compiled

---
 syncanysql/executor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 59610ad..ad5e86a 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -149,9 +149,7 @@ class Executor(object):
                 raw_name_info = raw_name.split(".")
                 if len(raw_name_info) != 2:
                     raise SyncanySqlCompileException("raw sql name error: %s", raw)
-                raw_sql = "set @config.databases." + raw_name_info[0] + ".virtual_views." \
-                          + raw_name_info[1] + "='''\n" + raw_sql.strip() + "\n'''"
-                self.compile(name + "(" + str(lineno) + ")#set_virtual_view", raw_sql)
+                self.session_config.set(["databases", raw_name_info[0], "virtual_views", raw_name_info[1]], raw_sql.strip())
                 sql = sql.replace(raw, raw_name)
             self.compile(name + "(" + str(lineno) + ")", sql)
 
-- 
2.43.0


From 57be7d4aceee8566d65a2e92443fede047e9b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 077/120] fix: SET of a text with a quote, or followed by a
 comment, sets a different text

---
 syncanysql/compiler.py    | 2 +-
 syncanysql/taskers/set.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b31ff48..b849925 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -177,7 +177,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                value = self.generate_sql(set_item_expression).split("=")
+                value = set_item_expression.sql(dialect=CompilerDialect, comments=False).split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 6a7d8de..a60e7c2 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -49,7 +49,10 @@ class SetCommandTasker(object):
         if value[:1] in ('"', "'"):
             if value[:3] in ("'''", '"""'):
                 return value[3:-3].strip()
-            return value[1:-1].strip()
+            text = value[1:-1].replace(value[0] * 2, "")
+            if len(value) < 2 or value[-1] != value[0] or value[0] in text:
+                raise ValueError("unknown value: %s" % value)
+            return value[1:-1].replace(value[0] * 2, value[0]).strip()
         if value.lower() == 'true':
             return True
         if value.lower() == 'false':
-- 
2.43.0


From 289588b8eb5c5ac88900fd93003a4e882d23d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 078/120] fix: EXECUTE of a file with a comment beside its name
 runs a shell command

---
 syncanysql/compiler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b849925..76536ab 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2,6 +2,7 @@
 # 2023/2/8
 # create by: snower
 
+import re
 import os
 import copy
 import uuid
@@ -109,6 +110,8 @@ class Compiler(object):
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
                    "bigint": "int", "mediumint": "int", "smallint": "int", "tinyint": "int", "decimal": "decimal", "double": "float",
                    "boolean": "bool", "binary": "bytes", "varbinary": "bytes", "blob": "bytes", "timestamp": "datetime"}
+    COMMENTS_RE = re.compile(r"^(\s+|/\*.*?\*/|(--|#)[^\n]*(\n|$))+", re.DOTALL)
+    QUOTED_FILENAME_RE = re.compile(r"^`([^`]*)`(\s+|/\*.*?\*/|(--|#)[^\n]*(\n|$))*$", re.DOTALL)
 
     def __init__(self, config, env_variables, name):
         self.config = config
@@ -162,8 +165,10 @@ class Compiler(object):
                 return SetCommandTasker(config)
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
                 filename = self.parse_const(expression.args["expression"], {}, arguments)["value"]
-                if filename and filename[0] == '`':
-                    filename = filename[1:-1]
+                filename = self.COMMENTS_RE.sub("", filename).strip()
+                quoted_filename = self.QUOTED_FILENAME_RE.match(filename)
+                if quoted_filename:
+                    filename = quoted_filename.group(1)
                 if filename in self.mapping:
                     filename = self.mapping[filename]
                 return ExecuteTasker({"filename": filename})
-- 
2.43.0


From 4ece3174fecfb4a63e3dafa77fd2bc1f1cd2a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 079/120] fix: WHERE on a CAST column compares the stored
 value, not the converted one

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 76536ab..6422f94 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -933,6 +933,9 @@ class Compiler(object):
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
             if left_column is None:
                 return None, None
+            if left_column["convert_typing_filter"]:
+                # the source compares the column as it is stored, not the converted value
+                return None, None
 
             if isinstance(right_expression, list):
                 if all([self.is_const(value_expression_item, config, arguments) and not isinstance(value_expression_item, sqlglot_expressions.Parameter)
-- 
2.43.0


From 640bce7a60ffc9e71ad982329cb77707e52c84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 080/120] fix: ORDER BY a CAST column sorts by the stored
 value, not the converted one

---
 syncanysql/compiler.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6422f94..fef1aac 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2047,6 +2047,15 @@ class Compiler(object):
                 raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                  % self.to_sql(expression))
             column = self.parse_column(order_expression.args["this"], config, arguments)
+            if column["typing_filters"] and isinstance(config["schema"], dict):
+                # the source orders by the column as it is stored, not by the converted value
+                converted_column_alias = self.find_select_column_alias(column, config, arguments, primary_table)
+                if converted_column_alias:
+                    sort_keys.append((converted_column_alias, True if order_expression.args["desc"] else False))
+                    continue
+            if column["convert_typing_filter"]:
+                raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
+                                                 % self.to_sql(expression))
             if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
@@ -2074,6 +2083,15 @@ class Compiler(object):
         if primary_sort_keys:
             config["orders"].extend(primary_sort_keys)
 
+    def find_select_column_alias(self, column, config, arguments, primary_table):
+        for column_alias, column_expression in primary_table["select_columns"].items():
+            if not self.is_column(column_expression, config, arguments):
+                continue
+            select_column = self.parse_column(column_expression, config, arguments)
+            if all(select_column[key] == column[key] for key in ("table_name", "column_name", "typing_filters")):
+                return column_alias
+        return None
+
     def compile_foreign_column(self, expression, config, arguments, column):
         if column.get("typing_filters"):
             return column["column_name"] + "|" + column["typing_filters"][0]
-- 
2.43.0


From afaa3ef50b4eeacefbaf894f9401555de064f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 081/120] fix: a column annotated with three types becomes the
 compiled form of its types

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fef1aac..81a14d6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2107,7 +2107,7 @@ class Compiler(object):
                 child_filter_column = ":$.*|" + typing_filters[0]
                 if len(typing_filters) == 1:
                     return child_filter_column
-                return [typing_filter_column, compile_column_filter(typing_filters[1:])]
+                return [child_filter_column, compile_column_filter(typing_filters[1:])]
             return [typing_filter_column, compile_column_filter(column["typing_filters"][1:])]
         return ("$" * scope_depth) + "." + column["column_name"]
     
-- 
2.43.0


From 54172791fe4c3607a9dc1010e999176ed84f0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 082/120] fix: CAST of an annotated column applies the CAST
 before the annotation

---
 syncanysql/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 81a14d6..24e5430 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2795,7 +2795,7 @@ class Compiler(object):
                 convert_typing_filter = self.TYPE_FILTERS[calculater_name[8:]]
                 expression = expression.args["expressions"][0]
 
-        typing_filters = [convert_typing_filter] if convert_typing_filter else []
+        typing_filters = []
         db_name = expression.args["db"].name if expression.args.get("db") else None
         table_name = expression.args["table"].name if expression.args.get("table") else None
         column_name = expression.args["this"].name
@@ -2815,9 +2815,13 @@ class Compiler(object):
                             typing_filters.append(" ".join([typing_filter_name] + typing_filter[1:]))
                     except:
                         pass
+            if convert_typing_filter:
+                typing_filters.append(convert_typing_filter)
             column_name = origin_name[:start_index]
             typing_name = (column_name + "|" + typing_filters[0]) if typing_filters else column_name
         except ValueError:
+            if convert_typing_filter:
+                typing_filters.append(convert_typing_filter)
             column_name = origin_name
             typing_name = column_name
         try:
-- 
2.43.0


From b9c61979e0eaa7ea52cb06c96f4b77a76885d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 083/120] fix: adding months that end in December or years to
 February 29 gives NULL

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 26 +++++--------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..18873de 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 import time
+import calendar
 import datetime
 import pytz
 from syncany.utils import get_timezone, parse_datetime
@@ -13,30 +14,15 @@ from ...utils import NumberTypes, NumberStringTypes
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
                    "MICROSECOND": 1}
+MONTH_UNITS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
-            try:
-                return dt.replace(year=new_year, month=new_month)
-            except ValueError:
-                day = dt.day - 1
-                while day >= 1:
-                    try:
-                        return dt.replace(year=new_year, month=new_month, day=day)
-                    except ValueError:
-                        day -= 1
-                return None
+        if unit in MONTH_UNITS:
+            months = value * MONTH_UNITS[unit]
+            year, month = divmod(dt.year * 12 + dt.month - 1 + (-months if is_sub else months), 12)
+            return dt.replace(year=year, month=month + 1, day=min(dt.day, calendar.monthrange(year, month + 1)[1]))
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
-- 
2.43.0


From 6d374a3528f626c0f879231ccfd50384cfff98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 084/120] fix: adding hours, minutes or seconds to a date has
 no effect

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 18873de..6f5a66e 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -24,8 +24,11 @@ def calculate_datetime(dt, interval, is_sub=False):
             year, month = divmod(dt.year * 12 + dt.month - 1 + (-months if is_sub else months), 12)
             return dt.replace(year=year, month=month + 1, day=min(dt.day, calendar.monthrange(year, month + 1)[1]))
         if unit in TIMEDELTA_UNITS:
+            date_dt = dt
+            if not isinstance(dt, datetime.datetime) and TIMEDELTA_UNITS[unit] < TIMEDELTA_UNITS["DAY"]:
+                date_dt = datetime.datetime(dt.year, dt.month, dt.day, tzinfo=get_timezone())
             td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
-            return (dt - td) if is_sub else (dt + td)
+            return (date_dt - td) if is_sub else (date_dt + td)
         return None
     
     if isinstance(interval, dict):
-- 
2.43.0


From a4cc1bb444ede1bc3913ed06cd1a2c6f66773696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 085/120] fix: DATEDIFF has the wrong sign and counts times of
 day

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 6f5a66e..16f5d6e 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -287,7 +287,7 @@ def mysql_datediff(dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / 86400)
+    return (datetime.date(dt1.year, dt1.month, dt1.day) - datetime.date(dt2.year, dt2.month, dt2.day)).days
 
 @typing_filter(int)
 def mysql_timestampdiff(unit, dt1, dt2):
-- 
2.43.0


From 9008a72084f661d7ef613e7eb45e21a9140223ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 086/120] fix: TIMESTAMPDIFF between a date and a datetime is
 NULL

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 16f5d6e..717664d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -297,7 +297,7 @@ def mysql_timestampdiff(unit, dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / TIMEDELTA_UNITS[unit])
+    return int((mysql_datetime(dt2) - mysql_datetime(dt1)).total_seconds() / TIMEDELTA_UNITS[unit])
 
 @typing_filter(str)
 def mysql_date_format(dt, f):
-- 
2.43.0


From 0c790084cf4f6b06108ed83a2bf1ba2d036ffa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 087/120] fix: UNIX_TIMESTAMP of a text or a date is NULL, and
 wrong outside UTC

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 717664d..e03eeba 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -123,7 +123,7 @@ def mysql_time(dt):
 def mysql_unix_timestamp(dt=None):
     if dt is None:
         return int(time.time())
-    return int(time.mktime(dt.utctimetuple()))
+    return int(mysql_datetime(dt).timestamp())
 
 @typing_filter(datetime.datetime)
 def mysql_from_unixtime(t):
-- 
2.43.0


From ad54e160dce4f65d3e0c4638bbfe4c206295c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 088/120] fix: TIME_TO_SEC of a time is NULL and of a datetime
 counts from the year 2000

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index e03eeba..c471a7d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -207,10 +207,9 @@ def mysql_year(dt):
 def mysql_time_to_sec(dt):
     if dt is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
     if isinstance(dt, str):
         dt = parse_datetime("2000-01-01 " + dt, None, get_timezone())
-    return int((dt - st).total_seconds())
+    return dt.hour * 3600 + dt.minute * 60 + dt.second
 
 @typing_filter(str)
 def mysql_sec_to_time(t):
-- 
2.43.0


From cef3c35db075409c58337da3338899d25d4579db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 089/120] fix: SEC_TO_TIME starts again after a day

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index c471a7d..e51e31d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -215,8 +215,8 @@ def mysql_time_to_sec(dt):
 def mysql_sec_to_time(t):
     if t is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
-    return (st + datetime.timedelta(seconds=t)).strftime("%H:%M:%S")
+    minutes, seconds = divmod(abs(int(t)), 60)
+    return "%s%02d:%02d:%02d" % ("-" if t < 0 else "", minutes // 60, minutes % 60, seconds)
 
 @typing_filter(datetime.datetime)
 def mysql_dateadd(dt, i):
-- 
2.43.0


From b9d08e156a09ebd74493356d27dc38cc8c2ebbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 090/120] fix: DAYOFWEEK counts from Monday

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index e51e31d..b5efac4 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -161,7 +161,7 @@ def mysql_dayofweek(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.weekday() + 1
+    return dt.isoweekday() % 7 + 1
 
 @typing_filter(int)
 def mysql_week(dt, mod=None):
-- 
2.43.0


From 0f75bec6e3645d5428d3e9d9b33909d631c93057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 091/120] fix: MONTHNAME gives the abbreviated name

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index b5efac4..84d8a99 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -145,7 +145,7 @@ def mysql_monthname(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.strftime("%b")
+    return dt.strftime("%B")
 
 @typing_filter(str)
 def mysql_dayname(dt):
-- 
2.43.0


From b9a2d5cc31941de4b818980cf2d34e355edba3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 092/120] fix: INTERVAL of anything but a plain literal gives
 NULL

---
 syncanysql/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 24e5430..d9f1971 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1836,6 +1836,11 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
+            if not isinstance(expression.args["this"], sqlglot_expressions.Literal):
+                return ["#make", {
+                    "value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                    "unit": ["#const", expression.args["unit"].args["this"]]
+                }]
             return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
@@ -2422,8 +2427,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Parameter):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
-        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+        elif isinstance(expression, sqlglot_expressions.Interval):
+            self.parse_calculate(expression.args["this"], config, arguments, primary_table, calculate_fields)
+        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star, sqlglot_expressions.DataType)):
             pass
         elif self.is_const(expression, config, arguments):
             pass
-- 
2.43.0


From 7706ba7e15536aa309e6d4aa85bc7587b94c1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 093/120] fix: a microsecond counts as a second in intervals

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 84d8a99..fa3adb8 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -13,7 +13,7 @@ from ...utils import NumberTypes, NumberStringTypes
 
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
-                   "MICROSECOND": 1}
+                   "MICROSECOND": 0.000001}
 MONTH_UNITS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
@@ -45,7 +45,8 @@ def calculate_datetime(dt, interval, is_sub=False):
     for i in range(7):
         if not values[i]:
             continue
-        dt = calculate(units[i], int(values[i].replace("-", "").replace(".", "").replace(":", "")))
+        value = values[i].replace("-", "").replace(":", "")
+        dt = calculate(units[i], int(value[1:7].ljust(6, "0") if units[i] == "MICROSECOND" else value))
         if not dt:
             return None
     return dt
@@ -296,7 +297,7 @@ def mysql_timestampdiff(unit, dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((mysql_datetime(dt2) - mysql_datetime(dt1)).total_seconds() / TIMEDELTA_UNITS[unit])
+    return int((mysql_datetime(dt2) - mysql_datetime(dt1)) / datetime.timedelta(seconds=TIMEDELTA_UNITS[unit]))
 
 @typing_filter(str)
 def mysql_date_format(dt, f):
-- 
2.43.0


From 734a40ba51546b691334dcdbefbd3596f5aeb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 094/120] fix: UNIX_TIMESTAMP(NULL) gives the current time

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index fa3adb8..2d541c6 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -121,9 +121,12 @@ def mysql_time(dt):
     return None
 
 @typing_filter(int)
-def mysql_unix_timestamp(dt=None):
-    if dt is None:
+def mysql_unix_timestamp(*args):
+    if not args:
         return int(time.time())
+    dt = args[0]
+    if dt is None:
+        return None
     return int(mysql_datetime(dt).timestamp())
 
 @typing_filter(datetime.datetime)
-- 
2.43.0


From 2bde8234ea7863bd721223ab5a3bbdbcae8d5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 095/120] fix: DATE_ADD fails in a query with an inner join

---
 syncanysql/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d9f1971..82acaa1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -44,6 +44,13 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        # a DATE_ADD without unit is generated with an empty one
+        FUNCTIONS = {
+            **sqlglot_parser.Parser.FUNCTIONS,
+            "DATE_ADD": lambda args: sqlglot_expressions.DateAdd.from_arg_list(
+                args[:2] if len(args) == 3 and args[2].name == "" else args),
+        }
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From d189267c206fb24d7168a784c8ce15498ecf858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 096/120] fix: an environment variable named like a column
 replaces the value WHERE compares it with

---
 syncanysql/taskers/query.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index d7b0e0e..3c7bc3e 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -385,7 +385,10 @@ class QueryTasker(object):
 
     def compile_tasker(self, arguments, tasker):
         tasker.load()
-        compile_arguments = dict(**self.ENV_ARGUMENTS)
+        # an environment variable does not replace the value a query compares a column of that name with
+        query_names = [key.split("|")[0] for key in (tasker.config.get("querys") or {})]
+        compile_arguments = {key: value for key, value in self.ENV_ARGUMENTS.items()
+                             if not any(key == name or key.startswith(name + "__") for name in query_names)}
         compile_arguments.update(arguments)
         if self.is_local_memory_database(tasker.config):
             if isinstance(tasker.config["input"], str) and "&.--." in tasker.config["input"] and not arguments.get("@loop", False):
-- 
2.43.0


From b57137d8a2454a39c1ff74d68eb1f843f6724c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 097/120] fix: TIMESTAMPDIFF counts months of 30 and years of
 365 days

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 2d541c6..5a8d66b 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -300,7 +300,14 @@ def mysql_timestampdiff(unit, dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((mysql_datetime(dt2) - mysql_datetime(dt1)) / datetime.timedelta(seconds=TIMEDELTA_UNITS[unit]))
+    unit, dt1, dt2 = unit.upper(), mysql_datetime(dt1), mysql_datetime(dt2)
+    if unit in MONTH_UNITS:
+        start, end = min(dt1, dt2), max(dt1, dt2)
+        months = (end.year - start.year) * 12 + end.month - start.month
+        if (end.day, end.time()) < (start.day, start.time()):
+            months -= 1
+        return (months // MONTH_UNITS[unit]) * (1 if dt1 <= dt2 else -1)
+    return int((dt2 - dt1) / datetime.timedelta(seconds=TIMEDELTA_UNITS[unit]))
 
 @typing_filter(str)
 def mysql_date_format(dt, f):
-- 
2.43.0


From c06db51ed43d41bbcd11b1ce36bb499eae4821a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 098/120] fix: WEEK in mode 1 numbers the weeks of many years
 one too low

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 5a8d66b..9fd2eb0 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -173,7 +173,11 @@ def mysql_week(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%W" if str(mod) == "1" else "%U"))
+    if str(mod) == "1":
+        # weeks start on Monday, the first one is the first with more than three days in this year
+        first = datetime.date(dt.year, 1, 1).weekday()
+        return (dt.timetuple().tm_yday - 1 + first) // 7 + (1 if first <= 3 else 0)
+    return int(dt.strftime("%U"))
 
 @typing_filter(int)
 def mysql_yearweek(dt, mod=None):
-- 
2.43.0


From c27072b47138e790d5863c9420ca009831b00922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 099/120] fix: YEARWEEK gives week 0 for the first days of a
 year

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9fd2eb0..513afe4 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -185,7 +185,13 @@ def mysql_yearweek(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%Y%W" if str(mod) == "1" else "%Y%U"))
+    if str(mod) == "1":
+        year, week = dt.isocalendar()[:2]
+    else:
+        year, week = dt.year, int(dt.strftime("%U"))
+        if week == 0:     # the days before the first Sunday are in the last week of the year before
+            year, week = year - 1, int(datetime.date(year - 1, 12, 31).strftime("%U"))
+    return year * 100 + week
 
 @typing_filter(int)
 def mysql_dayofyear(dt):
-- 
2.43.0


From bfaebb5835a2c374d1f5f125e4def4fc444f58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 100/120] fix: TIMESTAMPDIFF with its unit unquoted gives NULL

---
 syncanysql/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 82acaa1..9fd214f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -51,6 +51,15 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 args[:2] if len(args) == 3 and args[2].name == "" else args),
         }
 
+        def _parse_function(self, *args, **kwargs):
+            function = sqlglot_parser.Parser._parse_function(self, *args, **kwargs)
+            if isinstance(function, sqlglot_expressions.Anonymous) and function.name.upper() == "TIMESTAMPDIFF":
+                unit = sqlglot_parser.seq_get(function.expressions, 0)
+                if isinstance(unit, sqlglot_expressions.Column) and not unit.table and unit.name.upper() in (
+                        "YEAR", "QUARTER", "MONTH", "WEEK", "DAY", "HOUR", "MINUTE", "SECOND", "MICROSECOND"):
+                    unit.replace(sqlglot_expressions.Literal.string(unit.name))
+            return function
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 20614269818f2f3828cec700fa1e9441550d1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 101/120] fix: column IN (subquery depending on the row by an
 inequality) finds nothing

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9fd214f..72aedc4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -965,6 +965,9 @@ class Compiler(object):
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
             if self.is_subquery(right_expression, config, arguments):
+                if self.parse_subquery(right_expression, config, arguments, primary_table, join_tables)[2]:
+                    # the subquery's value depends on the row, the source has no row to compare it with
+                    return None, None
                 value_column = self.compile_query_condition(right_expression, config, arguments, primary_table, join_tables,
                                                             left_column["typing_filters"] if left_column else None)
                 if isinstance(value_column, list) and value_column and isinstance(value_column[0], str) and value_column[0][:2] == "&.":
-- 
2.43.0


From 5612fdd46427679d97d18ffac07029b89956fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 102/120] fix: LIMIT counts the rows before a generator
 function expands them

---
 syncanysql/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 72aedc4..2712fa3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -616,7 +616,8 @@ class Compiler(object):
         elif limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct") \
+                    or self.has_yield(config["schema"]):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
@@ -2678,6 +2679,13 @@ class Compiler(object):
         return maybe_parse(" ".join(sql), dialect=CompilerDialect), join_parent_columns, interceptor_expressions
 
 
+    def has_yield(self, column):
+        if isinstance(column, dict):
+            return any(self.has_yield(value) for value in column.values())
+        if not isinstance(column, (list, tuple)) or not column:
+            return False
+        return column[0] in ("#yield", ":#yield") or any(self.has_yield(value) for value in column)
+
     def is_subquery_parent_value(self, expression):
         # only narrows down what a correlated subquery loads, its rows are matched by key afterwards
         return isinstance(expression, sqlglot_expressions.Parameter) and expression.name.startswith("_subquery_join_parent_")
-- 
2.43.0


From 8e64f8fd00e9a94372eaf5b8924fae1ea16da2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:43 +0000
Subject: [PATCH 103/120] fix: a generator function of an imported module is
 not expanded into rows

---
 syncanysql/calculaters/__init__.py | 24 ++++++++++++++++--------
 syncanysql/compiler.py             |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 5c2459c..a694e2a 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -6,7 +6,7 @@ import os
 import types
 from syncany.calculaters import CALCULATERS, Calculater, TypeFormatCalculater, TypingCalculater, MathematicalCalculater
 from syncany.calculaters import register_calculater, find_calculater, CalculaterUnknownException
-from syncany.calculaters.import_calculater import ImportCalculater
+from syncany.calculaters.import_calculater import create_import_calculater
 from .env_variable_calculater import CurrentEnvVariableCalculater
 from .query_tasker_calculater import ExecuteQueryTaskerCalculater
 from .row_calculater import *
@@ -62,14 +62,22 @@ def is_mysql_func(name):
     return name in MysqlCalculater.funcs
 
 
-def find_generate_calculater(name):
-    calculater = find_calculater(name)
-    if issubclass(calculater, ImportCalculater):
+def find_generate_calculater(name, imports=None):
+    import_name, _, function_name = name.partition("$")
+    try:
+        calculater = find_calculater(import_name)
+    except CalculaterUnknownException:
+        module = (imports or {}).get(import_name)
+        if not module or isinstance(module, (bool, int, float, list, tuple, set, dict)):
+            raise
         try:
-            import_calculater = ImportCalculater(name)
-            if isinstance(import_calculater.module_or_func, (types.FunctionType, types.LambdaType)):
-                if import_calculater.module_or_func.__code__.co_flags & 0x20 != 0:
-                    return calculater
+            if isinstance(module, str):
+                module = __import__(module, globals(), locals(), [module.rpartition(".")[-1]])
+            function = module
+            if function_name:
+                function = create_import_calculater(import_name, module)(import_name + "::" + function_name.replace("$", ".")).module_or_func
+            if isinstance(function, (types.FunctionType, types.LambdaType)) and function.__code__.co_flags & 0x20 != 0:
+                return create_import_calculater(import_name, module)
         except:
             pass
         raise CalculaterUnknownException("%s is unknown generate calculater" % name)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2712fa3..a4dff3d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1726,7 +1726,7 @@ class Compiler(object):
                     column.append(self.compile_calculate(arg_expression, config, arguments, primary_table, column_join_tables, join_index))
 
             try:
-                find_generate_calculater(calculater_name)
+                find_generate_calculater(calculater_name, self.config.get().get("imports"))
                 return ["#yield", column]
             except CalculaterUnknownException:
                 pass
-- 
2.43.0


From ff350bcf89783841cd7aea4d75a613537e5d066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 104/120] fix: arithmetic of a decimal and a fraction is NULL

---
 .../calculaters/mysql_funcs/number_funcs.py   | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 8f442d8..6ec340a 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -4,38 +4,52 @@
 
 import math
 import random
+from decimal import Decimal
 from syncany.calculaters import typing_filter
 from ...utils import ensure_number, ensure_int
 
+def ensure_operands(x, y):
+    x, y = ensure_number(x), ensure_number(y)
+    if isinstance(x, Decimal) and isinstance(y, float):
+        return float(x), y
+    if isinstance(x, float) and isinstance(y, Decimal):
+        return x, float(y)
+    return x, y
+
 @typing_filter(float)
 def mysql_add(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) + ensure_number(y)
+    x, y = ensure_operands(x, y)
+    return x + y
 
 @typing_filter(float)
 def mysql_sub(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) - ensure_number(y)
+    x, y = ensure_operands(x, y)
+    return x - y
 
 @typing_filter(float)
 def mysql_mul(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) * ensure_number(y)
+    x, y = ensure_operands(x, y)
+    return x * y
 
 @typing_filter(float)
 def mysql_div(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) / ensure_number(y)
+    x, y = ensure_operands(x, y)
+    return x / y
 
 @typing_filter(float)
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = ensure_operands(x, y)
+    return x % y
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
-- 
2.43.0


From 89275a8f09e7f6794a9a412133b0150fa947caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:24 +0000
Subject: [PATCH 105/120] fix: numbers as arguments of LIKE, REGEXP and text
 functions fail

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py |  7 +++++++
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 10 +++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index c8088c2..8542ef7 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 from syncany.calculaters import typing_filter
+from ...utils import ensure_str
 
 def parse_flags(match_type):
     if not match_type:
@@ -28,6 +29,7 @@ def parse_flags(match_type):
 def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s, r = ensure_str(s), ensure_str(r)
     try:
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
@@ -37,6 +39,7 @@ def mysql_regexp(s, r, match_type=None):
 def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s, r = ensure_str(s), ensure_str(r)
     try:
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
@@ -46,6 +49,7 @@ def mysql_regexplike(s, r, match_type=None):
 def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=None):
     if r is None or s is None:
         return None
+    s, r = ensure_str(s), ensure_str(r)
     try:
         flags = parse_flags(match_type)
         cs = s[pos-1:]
@@ -67,6 +71,7 @@ def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=No
 def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
     if r is None or s is None or rs is None:
         return None
+    s, r, rs = ensure_str(s), ensure_str(r), ensure_str(rs)
     try:
         flags = parse_flags(match_type)
         cs = s[pos-1:]
@@ -90,6 +95,7 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
 def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
+    s, r = ensure_str(s), ensure_str(r)
     try:
         flags = parse_flags(match_type)
         cs = s[pos-1:]
@@ -111,6 +117,7 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s, r = ensure_str(s), ensure_str(r)
     pattern, index = "", 0
     while index < len(r):
         c = r[index]
diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 1d7f148..920516f 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -94,7 +94,7 @@ def mysql_concat(*args):
 def mysql_concat_ws(sep, *args):
     if sep is None:
         return None
-    return sep.join(ensure_str(arg) for arg in args if arg is not None)
+    return ensure_str(sep).join(ensure_str(arg) for arg in args if arg is not None)
 
 @typing_filter(str)
 def mysql_concatws(*args):
@@ -161,7 +161,7 @@ def mysql_find_in_set(s, ss):
     if s is None or ss is None:
         return None
     try:
-        return ensure_str(ss).split(",").index(s) + 1
+        return ensure_str(ss).split(",").index(ensure_str(s)) + 1
     except ValueError:
         return 0
 
@@ -169,7 +169,7 @@ def mysql_find_in_set(s, ss):
 def mysql_replace(s, s1, s2):
     if s is None:
         return None
-    return ensure_str(s).replace(s1, s2)
+    return ensure_str(s).replace(ensure_str(s1), ensure_str(s2))
 
 @typing_filter(str)
 def mysql_substring(s, n, l=None):
@@ -260,13 +260,13 @@ def mysql_crc32(s):
 def mysql_from_base64(s):
     if s is None:
         return None
-    return base64.b64decode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64decode(ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_to_base64(s):
     if s is None:
         return None
-    return base64.b64encode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64encode(ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_inet4_aton(s):
-- 
2.43.0


From a1c96efd36213d528b89e9496cfb6199e5b77e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 106/120] fix: EXPLAIN of a statement that is not a query fails

---
 syncanysql/taskers/explain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/taskers/explain.py b/syncanysql/taskers/explain.py
index f3e1f8c..db892cd 100644
--- a/syncanysql/taskers/explain.py
+++ b/syncanysql/taskers/explain.py
@@ -15,10 +15,11 @@ class ExplainTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         self.config = copy.deepcopy(self.tasker.config)
+        tasker_name = (self.config or {}).get("name", name)
         if self.sql:
-            beautify_print("%s tasker %s execute sql:\n%s" % (datetime.datetime.now(), self.config["name"], self.sql))
+            beautify_print("%s tasker %s execute sql:\n%s" % (datetime.datetime.now(), tasker_name, self.sql))
             print()
-        beautify_print("%s tasker %s compiled config:" % (datetime.datetime.now(), self.config["name"]))
+        beautify_print("%s tasker %s compiled config:" % (datetime.datetime.now(), tasker_name))
         beautify_print(self.config)
         print()
 
-- 
2.43.0


From 33cc83d125664a0aa721c335c187715838202038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 107/120] fix: ${@Name} of a variable with capitals is not
 found

---
 syncanysql/executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index ad5e86a..0a2d65a 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -106,7 +106,10 @@ class Executor(object):
         for variable, default_value in variables:
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    variable_value = self.env_variables.get_value(variable_name)
+                except KeyError:
+                    variable_value = self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
-- 
2.43.0


From ca22bcec8556f381065d3711dbc1063722163515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 108/120] fix: ${} inside the value put for another ${} is
 replaced too

---
 syncanysql/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 0a2d65a..f6549b0 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -102,7 +102,7 @@ class Executor(object):
                                           else self.global_env_variables)
 
     def compile_variable(self, sql):
-        variables = ENV_VARIABLE_RE.findall(sql)
+        variables, values = ENV_VARIABLE_RE.findall(sql), {}
         for variable, default_value in variables:
             variable_name = variable[2:-1].split(":")[0]
             try:
@@ -139,8 +139,8 @@ class Executor(object):
                 if isinstance(value, SequenceTypes):
                     return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
                 return str(value)
-            sql = sql.replace(variable, format_variable_value(variable_value))
-        return sql
+            values[variable] = format_variable_value(variable_value)
+        return ENV_VARIABLE_RE.sub(lambda match: values[match.group(1)], sql)
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-- 
2.43.0


From f3bd9dc134e52afcc57940edc81ec5baa440dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:00 +0000
Subject: [PATCH 109/120] fix: a command line argument loses the part of its
 value after "="

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index f6549b0..528ea30 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,7 +55,7 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
             if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
                 arg_value = arg_value[1:-1]
-- 
2.43.0


From 439c256e0493b519243abd91bb06ee1a4f177ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 110/120] fix: a negative fraction in SET and ${} arguments is
 not a number

---
 syncanysql/taskers/set.py | 2 +-
 syncanysql/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index a60e7c2..9c6c835 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -62,7 +62,7 @@ class SetCommandTasker(object):
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
         value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+        if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
                 and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..e769616 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -27,7 +27,7 @@ def parse_value(value):
     if value.lower() == "null":
         return None
     value_info = value.split(".")
-    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+    if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
             and value_info[1].isdigit():
         return float(value)
     return value
-- 
2.43.0


From 1e10443cbf03609ef63f88010c3fe1542b7ac723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 111/120] fix: ${} with a default like an open call takes
 exponential time

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 528ea30..569a8e8 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -19,7 +19,7 @@ from .compiler import Compiler
 
 ENV_VARIABLE_RE = re.compile(r"(\$\{[@\w]+?(:.*?)?\})", re.DOTALL | re.M)
 RAW_SQL_RE = re.compile(r"(\/\*\s*raw\(([\w\.]+?)\)\s*(\*\/\s*\()?\s*(.*?)\s*(\)\s*\/\*)?\s*endraw\s*\*\/)", re.DOTALL | re.M)
-FUNC_RE = re.compile(r"^(\w+?)\(((.+),?)*\)$", re.DOTALL)
+FUNC_RE = re.compile(r"^(\w+?)\((.*)\)$", re.DOTALL)
 
 
 @register_reader("context")
-- 
2.43.0


From 3abcd15a202e49059da615f36d49adbc3285961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 112/120] fix: EXPLAIN DELETE fails

---
 syncanysql/taskers/delete.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syncanysql/taskers/delete.py b/syncanysql/taskers/delete.py
index b7c1acc..163787e 100644
--- a/syncanysql/taskers/delete.py
+++ b/syncanysql/taskers/delete.py
@@ -21,6 +21,7 @@ class StreamingFollowHooker(Hooker):
 
 class DeleteTasker(object):
     def __init__(self, config):
+        self.config = config
         self.tasker = QueryTasker(config)
 
     def start(self, name, executor, session_config, manager, arguments):
-- 
2.43.0


From eff837218eed4e2ea7508c0cfebfd0f437bf4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:45 +0000
Subject: [PATCH 113/120] fix: the prompt drops all but the first of several
 statements entered together

---
 syncanysql/prompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 7210708..61b379e 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -226,8 +226,8 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(text, lineno)])
                 try:
+                    self.executor.run("cli", [SqlSegment(str(sql), lineno) for sql in SqlParser(text).split()])
                     self.executor.execute()
                 except Exception as e:
                     print(e.__class__.__name__ + ": " + str(e))
-- 
2.43.0


From 6efc386f483e9d12ccf2b9bfdacc47f226d2ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 114/120] fix: JSON_SET and JSON_REMOVE change the document
 they are given

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..54f4553 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -190,6 +191,8 @@ def json_array_append(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         json_value = get_json_path_value(json_doc, path_vals[i * 2])
         if isinstance(json_value, list):
@@ -248,6 +251,8 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -261,6 +266,8 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From b3293ee0dd8fd2e5eb7af0be47c896e9560371da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 115/120] fix: JSON_REMOVE below an array element removes the
 element

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 54f4553..09f64bc 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -155,8 +155,9 @@ def remove_json_path_value(json_data, json_path):
                         del json_data[json_path_key]
                         return json_data
                     if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                        json_data = json_data[json_path_key]
+                        continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From 379e1b46fdb4423b22018fe807f50efbd5dcfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 116/120] fix: JSON_SET of an index of a number or boolean
 loses the document

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 09f64bc..0978cfa 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -119,8 +119,10 @@ def set_json_path_value(json_data, json_path, value):
                             return [json_data, value]
                         return json_data[:json_path_key] + str(value) + json_data[json_path_key + 1:]
                     json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
+                elif i + 1 >= len(json_path_keys) and not isinstance(json_data, dict):
+                    return value if json_path_key == 0 else [json_data, value]
                 else:
-                    json_data = []
+                    return json_data
                 continue
             if not isinstance(json_data, dict):
                 return json_data
-- 
2.43.0


From 4c59b942f495e6b42b96e876b2e0cd81b105fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 117/120] fix: a quoted key after a dot in a JSON path is not
 found

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 0978cfa..fc9fb4e 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -13,6 +13,9 @@ ArrayObjectTypes = (list, dict)
 def parse_json_path(json_path):
     if not json_path:
         return []
+    if json_path[0] == '"' and '"' in json_path[1:]:
+        key, _, next_json_path = json_path[1:].partition('"')
+        return [key] + parse_json_path(next_json_path.strip("."))
     try:
         dot_index = json_path.index(".")
     except ValueError:
-- 
2.43.0


From 702a4660e0a0216f865e2d6e3dfb5448fe7b5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:28 +0000
Subject: [PATCH 118/120] fix: JSON_SET of a path below an index of a text
 loses the document

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index fc9fb4e..3219fd4 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -121,7 +121,7 @@ def set_json_path_value(json_data, json_path, value):
                         if json_path_key >= len(json_data):
                             return [json_data, value]
                         return json_data[:json_path_key] + str(value) + json_data[json_path_key + 1:]
-                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
+                    return json_data
                 elif i + 1 >= len(json_path_keys) and not isinstance(json_data, dict):
                     return value if json_path_key == 0 else [json_data, value]
                 else:
-- 
2.43.0


From eff10add50606eaa3d2a21abbc629b2ff1baffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:50 +0000
Subject: [PATCH 119/120] fix: the column list of a WITH name or a derived
 table is ignored

---
 syncanysql/compiler.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a4dff3d..c1c3c54 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -266,7 +266,8 @@ class Compiler(object):
         for sub_expression in with_expression.args["expressions"]:
             table_name = self.rename_with_table(expression, sub_expression)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            subquery_config = self.compile_query(self.rename_alias_columns(sub_expression.args["this"], sub_expression.args["alias"],
+                                                                           table_name, arguments), subquery_arguments)
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -303,6 +304,27 @@ class Compiler(object):
                 table_expression.set("alias", sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier(name)))
         return table_name
 
+    def rename_alias_columns(self, expression, alias_expression, table_name, arguments):
+        column_names = [column.name for column in (alias_expression.args.get("columns") or [])] if alias_expression else []
+        if not column_names:
+            return expression
+        if any(table_expression.name == table_name for table_expression in expression.find_all(sqlglot_expressions.Table)):
+            # a recursive query names its columns in its first select
+            select_expression = expression
+            while isinstance(select_expression, sqlglot_expressions.Union):
+                select_expression = select_expression.args["this"]
+            if len(select_expression.args["expressions"]) != len(column_names):
+                raise SyncanySqlCompileException('unknown column names, related sql "%s"' % self.to_sql(expression))
+            select_expression.set("expressions", [sqlglot_expressions.alias_(column_expression.unalias(), column_name, quoted=True)
+                                                  for column_expression, column_name in zip(select_expression.args["expressions"], column_names)])
+            return expression
+        sql = self.generate_sql(expression)
+        schema = self.compile_query(expression, {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments})["schema"]
+        if not isinstance(schema, dict) or len(schema) < len(column_names):
+            raise SyncanySqlCompileException('unknown column names, related sql "%s"' % self.to_sql(sql))
+        return maybe_parse("SELECT %s FROM (%s) %s" % (
+            ", ".join(["`%s` AS `%s`" % names for names in zip(schema.keys(), column_names)]), sql, "__renamequery_" + str(uuid.uuid1().int)), dialect=CompilerDialect)
+
     def compile_subquery(self, expression, arguments):
         if not isinstance(expression, sqlglot_expressions.Subquery):
             table_name = "anonymous"
@@ -314,7 +336,8 @@ class Compiler(object):
             subquery_name = "__subquery_" + str(uuid.uuid1().int) + "_" + table_name
         subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
         subquery_config = self.compile_query(expression if not isinstance(expression, sqlglot_expressions.Subquery)
-                                             else expression.args["this"], subquery_arguments)
+                                             else self.rename_alias_columns(expression.args["this"], expression.args.get("alias"),
+                                                                            subquery_name, arguments), subquery_arguments)
         subquery_config["output"] = "&.--." + subquery_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
         subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
         arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
-- 
2.43.0


From 8fd3091ce62db944a494ee5d72087680d80cb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:57 +0000
Subject: [PATCH 120/120] fix: a function without columns of an aliased derived
 table is taken for a transform

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c1c3c54..5d1c0bf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -690,6 +690,8 @@ class Compiler(object):
         if expression.args.get("group") or expression.args.get("where") or expression.args.get("having") \
                 or expression.args.get("order") or expression.args.get("limit") or expression.args.get("offset"):
             return None
+        if expression.args.get("distinct") or expression.args.get("joins") or is_mysql_func(select_expressions[0].name.lower()):
+            return None
         calculate_fields = []
         self.parse_calculate(select_expressions[0], config, arguments, primary_table, calculate_fields)
         if calculate_fields:
-- 
2.43.0

