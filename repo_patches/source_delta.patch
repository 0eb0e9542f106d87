From 3309b88ddbc3580d5d6962e05fb23c134b82723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/25] fix: reject names, aliases and identifiers that end in
 a newline

'$' also matches before a trailing newline, so Column('a\n'), Entity('e\n'),
an alias 'x\n', ... passed validation and broke the serialized query.
---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From 78e9316016db2b305346e0e2c43a19c9698fdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:22 +0000
Subject: [PATCH 02/25] fix: resolve the subscriptable before checking a
 column's entity data model

Column('tags[a]', entity) was rejected at construction when the entity's data
model has 'tags', because the check ran before the subscriptable was known.
---
 snuba_sdk/column.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..622745e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -46,6 +46,14 @@ class Column(Expression):
                 f"column '{self.name}' is empty or contains invalid characters"
             )
 
+        # If this is a subscriptable set these values to help with debugging etc.
+        # Because this is frozen we can't set the value directly.
+        if "[" in self.name:
+            subscriptable, key = self.name.split("[", 1)
+            key = key.strip("]")
+            super().__setattr__("subscriptable", subscriptable)
+            super().__setattr__("key", key)
+
         if self.entity is not None:
             if not isinstance(self.entity, Entity):
                 raise InvalidColumnError(f"column '{self.name}' expects an Entity")
@@ -56,14 +64,6 @@ class Column(Expression):
 
             self.validate_data_model(self.entity)
 
-        # If this is a subscriptable set these values to help with debugging etc.
-        # Because this is frozen we can't set the value directly.
-        if "[" in self.name:
-            subscriptable, key = self.name.split("[", 1)
-            key = key.strip("]")
-            super().__setattr__("subscriptable", subscriptable)
-            super().__setattr__("key", key)
-
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From 7c36d95269855cb586e1ee31b8dcafdb7bc3686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:53 +0000
Subject: [PATCH 03/25] fix: find the expressions inside arrays and tuples

The column search skipped list and tuple values, so a column inside one was
never checked against the match clause (data model, subquery, join alias).
---
 snuba_sdk/visitors.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..1519afa 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -362,8 +362,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
-                    found |= self.visit(param)
+                if isinstance(param, (Expression, list, tuple)):
+                    found |= self.visit(param)  # type: ignore
 
         return found
 
@@ -414,8 +414,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
-                found |= self.visit(cond.rhs)
+            if isinstance(cond.rhs, (Expression, list, tuple)):
+                found |= self.visit(cond.rhs)  # type: ignore
         return found
 
     def _visit_boolean_condition(self, cond: BooleanCondition) -> set[Expression]:
@@ -440,4 +440,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: Set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self.visit(v)
+        return found
-- 
2.43.0


From 0d0a45303b0f09ad8cbbfc8f89267251eaa9f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:56 +0000
Subject: [PATCH 04/25] fix: Query.set_match accepts a Storage, as the
 constructor does

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From f2aad276d13a76185e28d17d95fd552f59ab2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:59 +0000
Subject: [PATCH 05/25] fix: print a boolean LimitBy count as an integer, as
 for Limit

---
 snuba_sdk/visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 1519afa..30f3294 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -319,7 +319,7 @@ class Translation(ExpressionVisitor[str]):
         return f"{self.visit(orderby.exp)} {orderby.direction.value}"
 
     def _visit_limitby(self, limitby: LimitBy) -> str:
-        return f"{limitby.count} BY {','.join(self.visit(column) for column in limitby.columns)}"
+        return f"{limitby.count:d} BY {','.join(self.visit(column) for column in limitby.columns)}"
 
     def _visit_totals(self, totals: bool) -> str:
         return f"{totals}"
-- 
2.43.0


From a3c4bfb18a52895bb5a25fa98fbefa0e650b8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:01 +0000
Subject: [PATCH 06/25] fix: print sample rates with more than six decimals
 without rounding them

Entity('events', sample=1e-7) was serialized as SAMPLE 0.000000.
---
 snuba_sdk/visitors.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 30f3294..860ba14 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from datetime import date, datetime
+from decimal import Decimal
 from typing import Any, Generator, Generic, Set, TypeVar
 
 from snuba_sdk.aliased_expression import AliasedExpression
@@ -240,6 +241,14 @@ class Translation(ExpressionVisitor[str]):
     def _visit_int_literal(self, literal: int) -> str:
         return f"{literal:d}"
 
+    def _stringify_sample(self, sample: float) -> str:
+        if sample % 1 == 0:
+            return f"{sample:.1f}"
+        formatted = f"{sample:f}"
+        if float(formatted) != sample:  # More than six decimals
+            formatted = f"{Decimal(repr(sample)):f}"
+        return formatted
+
     def _visit_entity(self, entity: Entity) -> str:
         alias_clause = ""
         if entity.alias is not None and self.use_entity_aliases:
@@ -247,19 +256,13 @@ class Translation(ExpressionVisitor[str]):
 
         sample_clause = ""
         if entity.sample is not None:
-            if entity.sample % 1 == 0:
-                sample_clause = f" SAMPLE {entity.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {entity.sample:f}"
+            sample_clause = f" SAMPLE {self._stringify_sample(entity.sample)}"
         return f"({alias_clause}{entity.name}{sample_clause})"
 
     def _visit_storage(self, storage: Storage) -> str:
         sample_clause = ""
         if storage.sample is not None:
-            if storage.sample % 1 == 0:
-                sample_clause = f" SAMPLE {storage.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {storage.sample:f}"
+            sample_clause = f" SAMPLE {self._stringify_sample(storage.sample)}"
         return f"STORAGE({storage.name}{sample_clause})"
 
     def _visit_relationship(self, relationship: Relationship) -> str:
-- 
2.43.0


From 939f01ba4f3613d11173c187dbd7e998e6fad09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/25] fix: don't print operators that MQL can't express as an
 equality

A >, <, >=, <= or IS NULL filter on a metric was silently serialized as
tag:value, which means tag = value.
---
 snuba_sdk/visitors.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 860ba14..1490620 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -28,6 +28,9 @@ from snuba_sdk.relationships import Join, Relationship
 
 TVisited = TypeVar("TVisited")
 
+# MQL conditions are of the form `tag:value` or `!tag:value`, other operators can't be expressed
+MQL_OPERATORS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
+
 
 class ExpressionVisitor(ABC, Generic[TVisited]):
     def visit(self, node: Expression) -> TVisited:
@@ -295,10 +298,13 @@ class Translation(ExpressionVisitor[str]):
         return f"({conditions_with_op})"
 
     def _visit_condition_mql(self, cond: Condition) -> str:
+        if cond.op not in MQL_OPERATORS:
+            raise InvalidExpressionError(
+                f"operator {cond.op.value} is not supported in conditions in MQL"
+            )
+
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
-        elif isinstance(cond.rhs, (CurriedFunction, Function)):
+        if isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-- 
2.43.0


From 1ba5b733c727ab89f9d5d2a0b18bb9509e037ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:25 +0000
Subject: [PATCH 08/25] fix: don't print an empty groupby as 'by ()', which is
 not valid MQL

---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..f3a1b0f 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -91,7 +91,7 @@ def _visit_mql_filters(
 def _visit_mql_groupby(
     groupby: list[Column | AliasedExpression] | None, expression_visitor: Translation
 ) -> str:
-    if groupby is not None:
+    if groupby:
         return " by (" + ", ".join(expression_visitor.visit(c) for c in groupby) + ")"
     return ""
 
-- 
2.43.0


From 402a0c878a9223e7c72f2599e83f5bc6c34d9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 09/25] fix: quote the string aggregate_params of a Formula, as
 for a Timeseries

topK("a b")(sum(foo)) was serialized as topK(a b)(sum(foo)), which is not
valid MQL.
---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index f3a1b0f..4433c56 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -159,7 +159,7 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            return f"({', '.join(self.expression_visitor.visit(p) for p in aggregate_params)})"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From 2b3e44af68e018ef7f56a3d96b3001e3b9c1d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 10/25] fix: print very large and very small floats without an
 exponent in MQL

The MQL grammar has no exponents, so sum(foo) * 1e-07 could not be parsed.
---
 snuba_sdk/metrics_visitors.py | 2 ++
 snuba_sdk/visitors.py         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 4433c56..fc9e737 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -154,6 +154,8 @@ class FormulaMQLPrinter:
             return self.timeseries_visitor.visit(parameter)
         elif isinstance(parameter, Formula):
             return self.visit(parameter)
+        elif isinstance(parameter, float):
+            return self.expression_visitor.visit(parameter)  # type: ignore
 
         return str(parameter)
 
diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 1490620..173d5e7 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -166,6 +166,8 @@ class Translation(ExpressionVisitor[str]):
 
             return f"{quote_char}{decoded}{quote_char}"
         elif isinstance(value, (int, float)):
+            if self.is_mql and isinstance(value, float) and "e" in repr(value):
+                return f"{Decimal(repr(value)):f}"  # MQL numbers have no exponent
             return f"{value}"
         elif isinstance(value, datetime):
             # Snuba expects naive UTC datetimes, so convert to that
-- 
2.43.0


From e0b1f3807090156966be3b2d9dc98167235bc36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:33 +0000
Subject: [PATCH 11/25] fix: don't split an MQL tag key that starts with 'and'

{a:"b" android:"c"} was parsed as a:"b" AND roid:"c".
---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..32850f3 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ("AND" / "and") !~r"[a-zA-Z0-9_.]"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From 9fbe0c7f54b37fdbe06848c68a4e1adf5338c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/25] fix: keep the backticks around an MRI that needs them
 when printing MQL

sum(`d:custom/foo@{none}`) was serialized as sum(d:custom/foo@{none}), which
does not mean the same metric (or is not valid MQL).
---
 snuba_sdk/metrics_visitors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index fc9e737..03912c2 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from abc import ABC, abstractmethod
 from dataclasses import asdict
 from typing import Any, Generic, Mapping, Sequence, TypeVar, Union
@@ -204,9 +205,15 @@ class MetricVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+# Anything that an MRI can't contain in MQL unless it is quoted with backticks
+UNQUOTED_MRI_BREAK_RE = re.compile(r"""[(){}\[\]",]|^\s""")
+
+
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
+            if UNQUOTED_MRI_BREAK_RE.search(metric.mri):
+                return f"`{metric.mri}`"
             return metric.mri
 
         if metric.public_name is not None:
-- 
2.43.0


From 17110302ad31e3806576d2b6ee4388d27a300c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:17 +0000
Subject: [PATCH 13/25] fix: serializing a MetricsQuery doesn't modify it

serialize() stored the optimized query in the object, although MetricsQuery is
documented as immutable.
---
 snuba_sdk/metrics_query.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..1044385 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,19 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(self, query=replace(self.query, filters=new_filters))
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 7f69799e504253549a9a8a285781da314fe6ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:20 +0000
Subject: [PATCH 14/25] fix: only merge OR conditions whose left hand sides are
 the same in the query

f(1) = 1 OR f(TRUE) = 2 was merged to f(1) IN array(1, 2), and the alias of a
curried function was dropped.
---
 snuba_sdk/query_optimizers/or_optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/query_optimizers/or_optimizer.py b/snuba_sdk/query_optimizers/or_optimizer.py
index 91f492c..cc0ce9d 100644
--- a/snuba_sdk/query_optimizers/or_optimizer.py
+++ b/snuba_sdk/query_optimizers/or_optimizer.py
@@ -7,6 +7,7 @@ from snuba_sdk.conditions import (
     ConditionGroup,
     Op,
 )
+from snuba_sdk.visitors import Translation
 
 
 class OrOptimizer:
@@ -52,13 +53,18 @@ class OrOptimizer:
             # can't be optimized
             return None
         shared_lhs = curr.lhs
+        # Python equality is too lenient to tell what is the same expression in the
+        # query, e.g. f(1) == f(True) == f(1.0), and it can ignore the alias.
+        translator = Translation(use_entity_aliases=True)
+        shared_text = translator.visit(shared_lhs)
         rhsides = [curr.rhs]
         for i in range(1, len(cond.conditions)):
             curr = cond.conditions[i]
             if (
                 not isinstance(curr, Condition)
                 or curr.op != Op.EQ
-                or (shared_lhs and curr.lhs != shared_lhs)
+                or curr.lhs != shared_lhs
+                or translator.visit(curr.lhs) != shared_text
             ):
                 # can't be optimized
                 return None
-- 
2.43.0


From 3ef6806a0105014a2904fb7b9dd236d1edcfbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:22 +0000
Subject: [PATCH 15/25] fix: a BooleanCondition with AND is flattened like an
 And for required columns

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From dffd2cfc8f8080b9578769a92ea61debc43a0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:25 +0000
Subject: [PATCH 16/25] fix: Rollup rejects a granularity of 0 or of type float

granularity must be an integer and one of the allowed values.
---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..3bce1e9 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if self.granularity is not None and (
+            not isinstance(self.granularity, int)
+            or self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From 836fc65d6b3c8e9c597cb50336a5b783961a7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:28 +0000
Subject: [PATCH 17/25] fix: json_to_snql doesn't modify the body it converts

The '-' of a descending function in orderby was stripped in the caller's list,
so converting the same body twice gave a different order.
---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From b6d1080f5c2cf2883601cf0f1f542787d945d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 18/25] fix: accept a legacy having group of a single
 condition, as in conditions

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 8556e29..4e12741 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 863d2039e4380188cfac93104d19ddab1da1949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:34 +0000
Subject: [PATCH 19/25] fix: accept lowercase operators in legacy conditions

is_condition recognizes them, but converting them raised a ValueError.
---
 snuba_sdk/legacy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 4e12741..90cacfd 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -5,7 +5,7 @@ from functools import partial
 from typing import Any, Mapping, Optional, Sequence, Union
 
 from snuba_sdk.column import Column
-from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or
+from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or, is_unary
 from snuba_sdk.entity import Entity, get_required_time_column
 from snuba_sdk.function import Function
 from snuba_sdk.orderby import Direction, LimitBy, OrderBy
@@ -172,7 +172,8 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     """
     rhs = None
     lhs = parse_exp(cond[0])
-    if cond[1] not in ["IS NULL", "IS NOT NULL"]:
+    op = Op(cond[1].upper())
+    if not is_unary(op):
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -192,7 +193,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
 
         rhs = parse_scalar(cond[2], only_strings=only_strings)
 
-    return (lhs, Op(cond[1]), rhs)
+    return (lhs, op, rhs)
 
 
 def parse_condition(cond: Sequence[Any]) -> Condition:
-- 
2.43.0


From dcba9e3f0fb821e64330ef92794ba30365d6ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:36 +0000
Subject: [PATCH 20/25] fix: legacy IS NULL functions don't get a NULL
 parameter

['a', 'IS NULL', None] as an expression became isNull(a, NULL).
---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 90cacfd..711656d 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -210,7 +210,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    parameters = (lhs,) if is_unary(op) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, parameters)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From 81be4fee52f8a63ee2285e947f748f9d82dfad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:16 +0000
Subject: [PATCH 21/25] fix: recognise aggregation functions whose name has
 digits in legacy strings

---
 snuba_sdk/snuba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/snuba.py b/snuba_sdk/snuba.py
index 209b4be..b7f540a 100644
--- a/snuba_sdk/snuba.py
+++ b/snuba_sdk/snuba.py
@@ -107,7 +107,7 @@ AGGREGATION_FUNCTIONS = {
     for suffix in _AGGREGATION_SUFFIXES
 }
 
-FUNCTION_NAME = re.compile(r"([a-zA-Z_]+)\(")
+FUNCTION_NAME = re.compile(r"([a-zA-Z_][a-zA-Z0-9_]*)\(")
 
 
 def is_aggregation_function(func_name: str, aliases: Optional[set[str]] = None) -> bool:
-- 
2.43.0


From 7aa926e1eba844d5d893f6947d3bff36b1ace659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:55 +0000
Subject: [PATCH 22/25] fix: reject the extra parameters of a curried aggregate
 instead of dropping them

---
 snuba_sdk/mql/mql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index 32850f3..c71f42d 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -495,6 +495,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
             isinstance(target, Timeseries)
             and target.aggregate == AGGREGATE_PLACEHOLDER_NAME
         ):
+            if curried_arbitrary_function_params:
+                raise InvalidMQLQueryError(
+                    "Cannot use arbitrary functions on a Timeseries without an aggregate"
+                )
             return target.set_aggregate(
                 curried_arbitrary_function_name, aggregate_params
             )
-- 
2.43.0


From 878dc348d45dbb4c28be7ea590767e165219d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:05 +0000
Subject: [PATCH 23/25] fix: keep the filters and group by of a negated MQL
 formula on the negation

---
 snuba_sdk/metrics_visitors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 03912c2..a2d4a04 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -193,10 +193,12 @@ class FormulaMQLPrinter:
                 f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
             )
 
-        mql_string += f"{self._visit_filters(formula.filters)}"
-        mql_string += f"{self._visit_groupby(formula.groupby)}"
+        suffix = f"{self._visit_filters(formula.filters)}{self._visit_groupby(formula.groupby)}"
+        if suffix and formula.function_name in PREFIX_ALIASES:
+            # Filters and group bys bind tighter than a prefix operator
+            mql_string = f"({mql_string})"
 
-        return mql_string
+        return mql_string + suffix
 
 
 class MetricVisitor(ABC, Generic[TVisited]):
-- 
2.43.0


From 78c22a3891363ccbbf011d9c7c3237ee0a22bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:45 +0000
Subject: [PATCH 24/25] fix: check the parameters of nested formulas, too

---
 snuba_sdk/formula.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 19b3203..a235715 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -77,7 +77,7 @@ class Formula:
                 "Formula parameters must group by the same columns"
             )
 
-    def validate(self) -> None:
+    def __validate_parameters(self) -> None:
         if not isinstance(self.function_name, str):
             raise InvalidFormulaError(f"formula '{self.function_name}' must be a str")
         if self.parameters is None:
@@ -92,6 +92,11 @@ class Formula:
                 raise InvalidFormulaError(
                     f"parameter '{param}' of formula {self.function_name} is an invalid type"
                 )
+            if isinstance(param, Formula):
+                param.__validate_parameters()
+
+    def validate(self) -> None:
+        self.__validate_parameters()
         self.__validate_consistency()
 
     def _replace(self, field: str, value: Any) -> Formula:
-- 
2.43.0


From c93172d94c5631c9ce47915578a4c8c6bc242c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 25/25] fix: a legacy orderby that is no string or list doesn't
 repeat the one before it

---
 snuba_sdk/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 711656d..6c33c9d 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -337,6 +337,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
                     part = parse_exp(o.lstrip("-"))
                 else:
                     part = parse_exp(o)
+            else:
+                part = parse_exp(o)
 
             order_bys.append(OrderBy(part, direction))
 
-- 
2.43.0

