From ca1fd87fda8fb86ab89fdce0d000bf0ca2bc5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:27 +0000
Subject: [PATCH 01/63] fix: resampling a time series keeps observations that
 fall between the new time steps

Forward-filling after reindexing dropped every observation whose date was not itself a
date of the new frequency, so a later period could report a stale value.
---
 src/libecalc/common/utils/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..8103ee8 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,7 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        ds_resampled = ds.reindex(new_time_steps, method="ffill").ffill()
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From fe624a33f6d00fbefa2cf905ec0aa59499b6bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 02/63] fix: an installation regularity of 0 is used, not
 replaced by the default of 1

---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From ed85152dbbc75faa5698ae3bf8b564aae9785a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 03/63] fix: year-only dates are accepted in time series files
 that also have decimal columns

Transposing the parsed table turned integer years into floats as soon as one column was
float, and the documented year-only date format was then rejected.
---
 src/libecalc/presentation/yaml/yaml_entities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 89f64bf..0658b9e 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -97,7 +97,8 @@ class MemoryResource(Resource):
             # Empty column data is fine, but it must retain the shape of the headers.
             data = [[] * len(headers)]
         else:
-            data = df_resource.T.values.tolist()
+            # Column by column: transposing would coerce all numeric columns to float if one of them is float
+            data = [df_resource.iloc[:, index].tolist() for index in range(len(headers))]
 
         return MemoryResource(headers=headers, data=data)
 
-- 
2.43.0


From cec57e816eaa7c633e62e3c6c13f5e5ae6084275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 04/63] fix: a time-dependent variable whose dates are not in
 order uses each value from its own date

---
 .../yaml/mappers/variables_mapper/variables_mapper.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..20caa02 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -35,7 +35,7 @@ class VariableProcessor:
             variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
             processed_expressions = {
                 period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                for period, (_, variable) in zip(variable_periods, sorted(self.variable.items()))
             }
 
             variable_result = []
-- 
2.43.0


From 486a6d4a0bfe6676359bdbd80960c7e516d929e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 05/63] fix: variables for a period reaching outside the global
 period are clipped to it

The indices were looked up with the unclipped dates, so models without START or END failed.
---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From dea92b92e5eef6ad5e686c02b82ceee10885cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 06/63] fix: the largest feasible rate is a rate the train can
 handle

Every probe was accepted, so the search could return an infeasible rate and never
reported that no rate is feasible.
---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From 84aab05a120621a819b1a48d22326f5195ae7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 07/63] fix: overflow to an earlier declared item starts from
 that item's own rate

Rates in declaration order were paired with items in topological order.
---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From 84d577401fb07803a709e053c75fc026da17f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 08/63] fix: cache size 0 on the command line disables the
 cache, as documented

---
 src/ecalc_cli/commands/run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 0976f23..3c36581 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -133,8 +133,10 @@ def run(
     if reference_cache_size is not None or flash_cache_size is not None:
         defaults = CacheConfig.default()
         config = CacheConfig(
-            reference_fluid_max_size=reference_cache_size or defaults.reference_fluid_max_size,
-            flash_max_size=flash_cache_size or defaults.flash_max_size,
+            reference_fluid_max_size=reference_cache_size
+            if reference_cache_size is not None
+            else defaults.reference_fluid_max_size,
+            flash_max_size=flash_cache_size if flash_cache_size is not None else defaults.flash_max_size,
         )
         NeqSimFluidService.configure(config)
 
-- 
2.43.0


From 974408bd8d43aede33cee919fa831440d62a8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:00 +0000
Subject: [PATCH 09/63] fix: adding zero rates with different regularity gives
 zero, not NaN

---
 src/libecalc/common/utils/rates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 8103ee8..a94719d 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -775,7 +775,12 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    regularity=np.divide(
+                        sum_calendar_day,
+                        sum_stream_day,
+                        out=np.zeros_like(sum_calendar_day),
+                        where=sum_stream_day != 0.0,
+                    ).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From dc7d0dd47d3ebc4403121b6ba35891b8d443165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:22 +0000
Subject: [PATCH 10/63] fix: a rate time series can be indexed by position

---
 src/libecalc/common/utils/rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index a94719d..d996501 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -1000,7 +1000,7 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
@@ -1009,7 +1009,7 @@ class TimeSeriesRate(TimeSeries[float]):
         elif isinstance(indices, list | np.ndarray):
             indices = list(indices)
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From c7f83a2a5b3f45537c7bf68515aa720882faa51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:43 +0000
Subject: [PATCH 11/63] fix: an expression with unused operands, unsupported
 operators or malformed numbers is rejected

---
 src/libecalc/expression/expression_tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..c357a53 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -123,6 +123,7 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     stack: list[Node] = []
     for token in postfix_tokens:
         if token.tag == TokenTag.operator:
+            get_operator(token)  # Make sure the operator is supported
             try:
                 right = stack.pop()
             except IndexError as e:
@@ -134,8 +135,15 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
             new_node = Node(token, left, right)
             stack.append(new_node)
         else:
+            if token.tag == TokenTag.numeric and isinstance(token.value, str):
+                raise ValueError(f"Invalid number '{token.value}'")
             stack.append(Node(token=token))
 
+    if len(stack) == 0:
+        raise ValueError("The expression is empty")
+    if len(stack) > 1:
+        raise ValueError("There are operands that are not used by any operator")
+
     return stack.pop()
 
 
-- 
2.43.0


From 98359cd9a03898e7fa423fda6fcfa772ee6edaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 12/63] fix: division by zero in an expression evaluates to
 zero, as documented

---
 src/libecalc/expression/expression_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index c357a53..cd87419 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -147,6 +147,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     return stack.pop()
 
 
+def divide(dividend: NDArray[np.float64], divisor: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Division where dividing by zero evaluates to zero"""
+    return np.divide(dividend, divisor, out=np.zeros_like(dividend), where=divisor != 0)
+
+
 class Operator(NamedTuple):
     value: str
     function: Callable
@@ -157,7 +162,7 @@ class Operator(NamedTuple):
 OPERATORS = {
     "{^}": Operator(value="{^}", function=op.pow, precedence=24, associativity="RIGHT"),
     "{*}": Operator(value="{*}", function=op.mul, precedence=23, associativity="LEFT"),
-    "{/}": Operator(value="{/}", function=op.truediv, precedence=23, associativity="LEFT"),
+    "{/}": Operator(value="{/}", function=divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-- 
2.43.0


From 623193e612ba17cb89a81a842d46324a660bb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 13/63] fix: comparisons in an expression have the same
 precedence, and are evaluated left to right, as documented

---
 src/libecalc/expression/expression_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index cd87419..87b576b 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -165,10 +165,10 @@ OPERATORS = {
     "{/}": Operator(value="{/}", function=divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
-    "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-    "!=": Operator(value="ne", function=op.ne, precedence=15, associativity="LEFT"),
-    "<": Operator(value="ne", function=op.lt, precedence=14, associativity="LEFT"),
-    ">": Operator(value="{>}", function=op.gt, precedence=13, associativity="LEFT"),
-    "<=": Operator(value="{<=}", function=op.le, precedence=12, associativity="LEFT"),
+    "==": Operator(value="==", function=op.eq, precedence=11, associativity="LEFT"),
+    "!=": Operator(value="ne", function=op.ne, precedence=11, associativity="LEFT"),
+    "<": Operator(value="ne", function=op.lt, precedence=11, associativity="LEFT"),
+    ">": Operator(value="{>}", function=op.gt, precedence=11, associativity="LEFT"),
+    "<=": Operator(value="{<=}", function=op.le, precedence=11, associativity="LEFT"),
     ">=": Operator(value="{>=}", function=op.ge, precedence=11, associativity="LEFT"),
 }
-- 
2.43.0


From c8efdfa944167c5949a4b879f6b8fb55ac04b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:10 +0000
Subject: [PATCH 14/63] fix: scientific notation in an expression accepts any
 number of digits

---
 src/libecalc/expression/expression_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_evaluator.py b/src/libecalc/expression/expression_evaluator.py
index f433fe4..e29ded5 100644
--- a/src/libecalc/expression/expression_evaluator.py
+++ b/src/libecalc/expression/expression_evaluator.py
@@ -91,7 +91,7 @@ def lexer(expression: str | int | float) -> list[Token]:
         (r">", TokenTag.operator),
         (r"==", TokenTag.operator),
         (r"!=", TokenTag.operator),
-        (r"[0-9](\.[0-9]+)?e[-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 3.4e7, 1e+1
+        (r"[0-9]+(\.[0-9]+)?[eE][-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 34e7, 1E+1
         (r"[0-9.]+", TokenTag.numeric),
         (r"[A-Za-z][A-Za-z0-9._;:+*/-]*", TokenTag.reference),
         (r"\$var\.[A-Za-z][A-Za-z0-9_]*", TokenTag.reference),
-- 
2.43.0


From 5a4f39994d086a1d45e684a4512356bb1399db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:09 +0000
Subject: [PATCH 15/63] fix: a missing value in a referenced time series
 evaluates to zero in an expression, as documented

---
 src/libecalc/expression/expression_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 87b576b..655d0d1 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -114,7 +114,7 @@ class Node:
         elif self.token.tag == TokenTag.reference:
             assert isinstance(self.token.value, str)
             assert self.token.value in variables
-            return np.asarray(variables[self.token.value]).astype(float)
+            return np.nan_to_num(np.asarray(variables[self.token.value]).astype(float))
         else:
             return assert_never(self.token.tag)
 
-- 
2.43.0


From eaa7d772e6085fa698e45a04043829f08262b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 16/63] fix: dated settings that are not in date order are
 refused with a validation error

---
 src/libecalc/common/temporal_model.py                 |  2 +-
 .../yaml/yaml_types/yaml_temporal_model.py            | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/temporal_model.py b/src/libecalc/common/temporal_model.py
index db347d5..4362780 100644
--- a/src/libecalc/common/temporal_model.py
+++ b/src/libecalc/common/temporal_model.py
@@ -13,7 +13,7 @@ class InvalidTemporalModel(Exception): ...
 
 def _get_key_string(key: datetime | Period):
     if isinstance(key, datetime):
-        return str(datetime)
+        return str(key)
     else:
         return str(key.start)
 
diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
index ea9b5bb..2ff9d21 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
@@ -1,8 +1,9 @@
 from typing import Annotated, Any, Literal, TypeVar, Union
 
-from pydantic import Discriminator, Tag
+from pydantic import AfterValidator, Discriminator, Tag
 
 from libecalc.common.errors.exceptions import InvalidDateException
+from libecalc.common.temporal_model import UnsortedKeys
 from libecalc.common.time_utils import is_temporal_model
 from libecalc.presentation.yaml.yaml_types.yaml_default_datetime import (
     YamlDefaultDatetime,
@@ -32,12 +33,20 @@ def discriminate_temporal_model(v: Any) -> Literal["single", "temporal"]:
     return "single"
 
 
+def validate_sorted_dates(v: dict) -> dict:
+    dates = list(v)
+    if dates != sorted(dates):
+        raise ValueError(str(UnsortedKeys(keys=dates)))
+    return v
+
+
 TModel = TypeVar("TModel")
 YamlTemporalModel = Annotated[
     Union[
         Annotated[TModel, Tag("single")],
         Annotated[
             dict[YamlDefaultDatetime, TModel],
+            AfterValidator(validate_sorted_dates),
             Tag("temporal"),
         ],
     ],
-- 
2.43.0


From 5718185f86bed999ccce2f1cdd26b54385a86d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:44 +0000
Subject: [PATCH 17/63] fix: a generator set or fuel that is only defined
 outside the simulation period is refused with a validation error

---
 src/libecalc/common/temporal_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/common/temporal_model.py b/src/libecalc/common/temporal_model.py
index 4362780..c9576f8 100644
--- a/src/libecalc/common/temporal_model.py
+++ b/src/libecalc/common/temporal_model.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from datetime import datetime
 from typing import Self, TypeVar
 
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.common.time_utils import Period, define_time_model_for_period
 
 ModelType = TypeVar("ModelType")
@@ -89,6 +90,8 @@ class TemporalModel[ModelType]:
             yield model.model
 
     def get_period(self) -> Period:
+        if len(self._periods) == 0:
+            raise EcalcValidationException("All dates in a temporal model are outside the period of the simulation.")
         return Period(
             start=self._periods[0].start,
             end=self._periods[-1].end,
-- 
2.43.0


From a13645d6eb2aea0fb2914dcf47aac95643341e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:41 +0000
Subject: [PATCH 18/63] fix: CONDITION: 0 switches the consumer off, it is not
 treated as no condition

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..24aca89 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None:
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From dab1f9a8f59ab5a2d993ff641bf4eaf90fbf8771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:41 +0000
Subject: [PATCH 19/63] fix: CONDITIONS of a venting emitter rate is used

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
-- 
2.43.0


From e48bd4d073518420c183c687d6cc8339ea9608c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:09 +0000
Subject: [PATCH 20/63] fix: a tabulated consumer uses no energy where its
 condition is not met

---
 .../tabulated/tabular_consumer_function.py          |  6 ++++++
 .../yaml/mappers/consumer_function_mapper.py        | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
index 78a7e6c..343d79c 100644
--- a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
+++ b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
@@ -36,6 +36,8 @@ class TabularConsumerFunction(ConsumerFunction):
         energy_usage_adjustment_factor (float): Factor to adjust energy usage.
         variables (list[TimeSeriesVariable]): Variables to evaluate and use for interpolation.
         power_loss_factor (TimeSeriesPowerLossFactor | None): Optional power loss factor.
+        is_active (list[bool] | None): For each time step, whether the condition of the consumer is met. The energy
+            usage is zero when it is not. Always active if not given.
     """
 
     def __init__(
@@ -44,6 +46,7 @@ class TabularConsumerFunction(ConsumerFunction):
         data: list[list[float]],
         variables: list[TimeSeriesVariable],
         power_loss_factor: TimeSeriesPowerLossFactor | None = None,
+        is_active: list[bool] | None = None,
     ):
         """Tabulated consumer function [MW] (energy) or [Sm3/day] (fuel)."""
         # Consistency of variables between tabulated_energy_function and variables_expressions must be validated up
@@ -56,6 +59,7 @@ class TabularConsumerFunction(ConsumerFunction):
 
         # Typically used for power line loss subsea et.c.
         self._power_loss_factor = power_loss_factor
+        self._is_active = is_active
 
     def evaluate(self) -> ConsumerFunctionResult:
         """
@@ -110,6 +114,8 @@ class TabularConsumerFunction(ConsumerFunction):
         variables_array_for_evaluation = np.squeeze(variables_array_for_evaluation)  # Remove empty dimensions
         variables_array_for_evaluation = np.transpose(variables_array_for_evaluation)
         energy_usage = self._tabular_energy_function.interpolate(variables_array_for_evaluation)
+        if self._is_active is not None:
+            energy_usage = np.where(self._is_active, energy_usage, 0.0)
 
         energy_usage_list = array_to_list(energy_usage)
         if energy_usage_list is None:
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 24aca89..ffb5ec3 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1077,11 +1077,24 @@ class ConsumerFunctionMapper:
             for variable in model.variables
         ]
 
+        condition = _map_condition(model)
+        is_active = (
+            [
+                value != 0
+                for value in TimeSeriesExpression(
+                    expression=condition, expression_evaluator=period_evaluator
+                ).get_evaluated_expression()
+            ]
+            if condition is not None
+            else None
+        )
+
         return TabularConsumerFunction(
             headers=energy_model.headers,
             data=energy_model.data,
             variables=variables,
             power_loss_factor=power_loss_factor,
+            is_active=is_active,
         )
 
     def _map_pump(
-- 
2.43.0


From 99f1f2f1d3ea2664bb30e554b1cdeda4066cdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:09 +0000
Subject: [PATCH 21/63] fix: tabulated variables that do not match the table
 are refused with a validation error

---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index ffb5ec3..6cad3dd 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1058,6 +1058,13 @@ class ConsumerFunctionMapper:
         if consumes != energy_usage_type_as_consumption_type:
             raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
 
+        variable_names = sorted(variable.name for variable in model.variables)
+        if variable_names != sorted(energy_model.required_variables):
+            raise EcalcValidationException(
+                f"Variables must correspond to the columns of '{model.energy_function}'. "
+                f"Got {', '.join(variable_names)}, expected {', '.join(sorted(energy_model.required_variables))}."
+            )
+
         power_loss_factor_expression = TimeSeriesExpression(
             expression=model.power_loss_factor, expression_evaluator=period_evaluator
         )
-- 
2.43.0


From d4004df6f1b0453aa3fd6ba02a52584f2cf1eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 22/63] fix: duplicate emission names in a fuel or venting
 emitter are refused, ignoring case

---
 .../yaml_types/emitters/yaml_venting_emitter.py | 17 ++++++++++++++++-
 .../yaml/yaml_types/fuel_type/yaml_fuel_type.py |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 97d6fcd..4f5c9c8 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -9,7 +9,7 @@ from pydantic import (
 from pydantic_core.core_schema import ValidationInfo
 
 from libecalc.common.component_type import ComponentType
-from libecalc.common.string.string_utils import generate_id
+from libecalc.common.string.string_utils import generate_id, get_duplicates
 from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -28,6 +28,17 @@ class YamlVentingType(enum.StrEnum):
     DIRECT_EMISSION = "DIRECT_EMISSION"
 
 
+def ensure_unique_emission_names(emissions):
+    duplicated_names = get_duplicates([emission.name for emission in emissions])
+
+    if len(duplicated_names) > 0:
+        raise ValueError(
+            f"EMISSIONS names must be unique. Duplicated names are: {', '.join(sorted(duplicated_names))}"
+        )
+
+    return emissions
+
+
 class YamlVentingVolumeEmission(YamlBase):
     name: str = Field(
         ...,
@@ -52,6 +63,8 @@ class YamlVentingVolume(YamlBase):
         description="The emission types and volume-emission-factors associated with oil loading/storage",
     )
 
+    validate_unique_emission_names = field_validator("emissions", mode="after")(ensure_unique_emission_names)
+
 
 class YamlVentingEmission(YamlBase):
     name: str = Field(
@@ -100,6 +113,8 @@ class YamlDirectTypeEmitter(YamlBase):
         description="The emissions for the emitter of type DIRECT_EMISSION",
     )
 
+    validate_unique_emission_names = field_validator("emissions", mode="after")(ensure_unique_emission_names)
+
     @field_validator("category", mode="before")
     def check_user_defined_category(cls, category, info: ValidationInfo):
         """Provide which value and context to make it easier for user to correct wrt mandatory changes."""
diff --git a/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py b/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
index bb2bd38..0869646 100644
--- a/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
+++ b/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
@@ -40,7 +40,7 @@ class YamlFuelType(YamlBase):
     @field_validator("emissions", mode="after")
     @classmethod
     def ensure_unique_emission_names(cls, emissions, info: ValidationInfo):
-        names = [emission.name for emission in emissions]
+        names = [emission.name.lower() for emission in emissions]  # Emission names are case-insensitive
         duplicated_names = get_duplicates(names)
 
         if len(duplicated_names) > 0:
-- 
2.43.0


From 68ccfc2c3d4d31c959cfc25f9b1eeb8c6e19650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 23/63] fix: read HEAD_MARGIN as meter liquid column, as
 documented

---
 .../presentation/yaml/mappers/facility_input.py       | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..35aae1b 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,8 +1,10 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
 from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
+from libecalc.presentation.yaml.mappers.utils import convert_head_to_joule_per_kg
 from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model import (
     YamlGeneratorSetModel,
     YamlPumpChartSingleSpeed,
@@ -17,6 +19,11 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _get_head_margin_joule_per_kg(facility_data: YamlPumpChartSingleSpeed | YamlPumpChartVariableSpeed) -> float:
+    # HEAD_MARGIN is given in meter liquid column, the pump model works in J/kg
+    return convert_head_to_joule_per_kg([facility_data.head_margin], Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN)[0]
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +31,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_get_head_margin_joule_per_kg(facility_data),
     )
 
 
@@ -35,7 +42,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_get_head_margin_joule_per_kg(facility_data),
     )
 
 
-- 
2.43.0


From 83d9200de232c1baaa0e33aa53dd2a6450261803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:18 +0000
Subject: [PATCH 24/63] fix: a pump left at exactly its maximum rate by
 CROSSOVER is within capacity

The rate left to the sender differed from its maximum rate by round-off, and
the capacity checks had no tolerance, so the operational setting was discarded
as invalid in about one of five cases.
---
 .../legacy_consumer/system/consumer_function.py        | 10 ++++++++--
 src/libecalc/domain/process/pump/pump.py               |  9 ++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py
index e35439a..7532ee0 100644
--- a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py
+++ b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py
@@ -221,8 +221,14 @@ class ConsumerSystemConsumerFunction(ConsumerFunction):
             # Only transfer when the receiver discharge pressure >= sender discharge pressure
             transfer_rate = np.where(receiver_discharge_pressure >= consumer_discharge_pressure, transfer_rate, 0)
 
-            # Subtract transfer rate on current consumer
-            rates_after_cross_over[consumer_index] -= transfer_rate
+            # Subtract transfer rate on current consumer, leaving exactly the maximum rate (no round-off error)
+            rates_after_cross_over[consumer_index] = np.where(
+                transfer_rate > 0,
+                rates_after_cross_over[consumer_index]
+                - operational_setting.get_rate(consumer_index)
+                + consumer_maximum_rate,
+                rates_after_cross_over[consumer_index],
+            )
             # Add transfer rate to receiving consumer
             rates_after_cross_over[cross_over_number - 1] += transfer_rate
 
diff --git a/src/libecalc/domain/process/pump/pump.py b/src/libecalc/domain/process/pump/pump.py
index e86127c..5a13101 100644
--- a/src/libecalc/domain/process/pump/pump.py
+++ b/src/libecalc/domain/process/pump/pump.py
@@ -11,6 +11,7 @@ from libecalc.domain.process.value_objects.chart import Chart
 from libecalc.domain.process.value_objects.chart.chart import ChartData
 
 EPSILON = 1e-15
+CAPACITY_RELATIVE_TOLERANCE = 1e-9  # a pump running at exactly maximum rate/head is not above it due to round-off
 
 
 class PumpModel:
@@ -224,13 +225,15 @@ class PumpModel:
         and can be calculated) Those that fall outside the working area, means that this pump(s) is not able to handle
         those rates/heads (alone)
         """
+        exceeds_maximum_head = head > maximum_head_at_rate * (1 + CAPACITY_RELATIVE_TOLERANCE)
+        exceeds_maximum_rate = rate_m3_per_hour > self._pump_chart.maximum_rate * (1 + CAPACITY_RELATIVE_TOLERANCE)
         failure_status = (
             PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE
-            if (head > maximum_head_at_rate and rate_m3_per_hour > self._pump_chart.maximum_rate)
+            if (exceeds_maximum_head and exceeds_maximum_rate)
             else PumpFailureStatus.ABOVE_MAXIMUM_HEAD_AT_RATE
-            if head > maximum_head_at_rate
+            if exceeds_maximum_head
             else PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE
-            if rate_m3_per_hour > self._pump_chart.maximum_rate
+            if exceeds_maximum_rate
             else PumpFailureStatus.NO_FAILURE
         )
 
-- 
2.43.0


From 2d8b294fc4d2be781eb17ff80a8990c27020196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:29 +0000
Subject: [PATCH 25/63] fix: maximum rate of tabulated compressors depending on
 pressure

CROSSOVER in a compressor system with such a compressor (alone or with a
turbine) failed with a TypeError/AttributeError.
---
 src/libecalc/domain/process/compressor/core/base.py |  4 ++--
 .../core/sampled/compressor_model_sampled.py        | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..803cd61 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -74,7 +74,7 @@ class CompressorWithTurbineModel:
         """Expression used in optimization to find the rate that utilizes the compressor trains capacity."""
 
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=getattr(self.compressor_model, "_fluid_model", None),  # sampled models have no fluid model
             rate=np.asarray([standard_rate]),
             suction_pressure=np.asarray([suction_pressure]),
             discharge_pressure=np.asarray([discharge_pressure]),
@@ -103,7 +103,7 @@ class CompressorWithTurbineModel:
         assert max_standard_rate is not None
         # Check if the obtained results are within the maximum load that the turbine can deliver
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=getattr(self.compressor_model, "_fluid_model", None),  # sampled models have no fluid model
             rate=max_standard_rate,
             suction_pressure=suction_pressures,
             discharge_pressure=discharge_pressures,
diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..012a728 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -148,10 +148,15 @@ class CompressorModelSampled:
         number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
         if self.support_max_rate:
             if self._qhull_sampled.support_max_rate:
-                return np.full(
-                    shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
-                )
+                if isinstance(self._qhull_sampled, CompressorModelSampled3D):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures, pd=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePd):
+                    max_rate = self._qhull_sampled.get_max_rate(discharge_pressure=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePs):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures)
+                else:
+                    max_rate = self._qhull_sampled.get_max_rate()
+                return np.full(shape=number_of_calculation_points, fill_value=max_rate)
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
         else:
-- 
2.43.0


From 2ab3a527990897d219f88baa566c7e4d3263a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:29 +0000
Subject: [PATCH 26/63] fix: points on or projected to the boundary of
 tabulated compressor data

The middle of the bounding box is not always inside the convex hull (triangular
data), the part of the hull used for the maximum rate may be empty, points
projected to the hull were lost by round-off and small rates gave a scale
factor of zero. These gave internal errors or a compressor reported as invalid.
---
 .../sampled/compressor_model_sampled_2d.py    | 10 +++++---
 .../sampled/compressor_model_sampled_3d.py    |  7 ++++--
 .../core/sampled/convex_hull_common.py        | 23 +++++++++++++++++--
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
index 34aec5b..ff9b2cf 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
@@ -11,6 +11,7 @@ from libecalc.domain.process.compressor.core.sampled.constants import (
 )
 from libecalc.domain.process.compressor.core.sampled.convex_hull_common import (
     get_lower_upper_qhull,
+    interpolate_within_round_off,
     sort_ndarray_by_column,
 )
 
@@ -60,6 +61,7 @@ class CompressorModelSampled2DRatePd:
         # for any point (rate, Dp) in the convex hull we can draw a line between
         # them to interpolate and find interpolated values
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._center = convex_hull.points.mean(axis=0)
 
         # we can only increase rate, therefore we do not care about upper_rate_points...
         # we either want upper or lower convex hull, so for Pd we want lower
@@ -160,7 +162,7 @@ class CompressorModelSampled2DRatePd:
             rate=rate, discharge_pressure=discharge_pressure
         )
         x_for_interpolator = np.stack((rate_projected, pd_projected), axis=-1)
-        return np.array(self._interpolator(x_for_interpolator))
+        return interpolate_within_round_off(self._interpolator, x_for_interpolator, self._center)
 
     def get_max_rate(self, discharge_pressure: NDArray[np.float64]) -> float:
         """AKA: find_maximum_compatible_rate.
@@ -224,6 +226,7 @@ class CompressorModelSampled2DRatePs:
         )
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._center = convex_hull.points.mean(axis=0)
         (
             lower_rate_points_qh,
             _,
@@ -268,7 +271,7 @@ class CompressorModelSampled2DRatePs:
     def evaluate(self, rate: NDArray[np.float64], suction_pressure: NDArray[np.float64], **kwargs):
         rate_projected, ps_projected = self._project_variables_for_evaluation(rate=rate, ps=suction_pressure)
         x_for_interpolator = np.stack((rate_projected, ps_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = interpolate_within_round_off(self._interpolator, x_for_interpolator, self._center)
 
         return energy_consumption
 
@@ -299,6 +302,7 @@ class CompressorModelSampled2DPsPd:
         )
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
+        self._center = convex_hull.points.mean(axis=0)
         lower_pd_points_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis, case_2d="ps_pd")
         lower_pd_points = lower_pd_points_qh.points
 
@@ -331,7 +335,7 @@ class CompressorModelSampled2DPsPd:
     def evaluate(self, suction_pressure: NDArray[np.float64], discharge_pressure: NDArray[np.float64], **kwargs):
         ps_projected, pd_projected = self._project_variables_for_evaluation(ps=suction_pressure, pd=discharge_pressure)
         x_for_interpolator = np.stack((ps_projected, pd_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = interpolate_within_round_off(self._interpolator, x_for_interpolator, self._center)
 
         return energy_consumption
 
diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
index d00f163..73f390c 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
@@ -121,8 +121,11 @@ class CompressorModelSampled3D:
         sampled_data_scaled = sampled_data[self.variable_order_3d].copy().astype("float64")
         if rescale_rate:
             self._do_rescale = True
-            self._scale_factor_rate = round(
-                2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())
+            self._scale_factor_rate = max(
+                1,
+                round(
+                    2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())
+                ),
             )
             sampled_data_scaled[RATE_NAME] = sampled_data_scaled[RATE_NAME] / self._scale_factor_rate
         else:
diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index 748e1ef..8c0aa63 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -22,6 +22,22 @@ def sort_ndarray_by_column(arr: NDArray[np.float64], column_index: int) -> NDArr
     return np.array(arr[arr[:, column_index].argsort()])
 
 
+ROUND_OFF_FRACTION = 1e-9
+
+
+def interpolate_within_round_off(
+    interpolator: LinearNDInterpolator, points: NDArray[np.float64], center: NDArray[np.float64]
+) -> NDArray[np.float64]:
+    """Evaluate the interpolator. Points on the convex hull (e.g. points projected to the hull) may due to round-off
+    errors be found to be just outside, those are evaluated slightly closer to the center of the hull.
+    """
+    values = np.array(interpolator(points))
+    outside = np.isnan(values)
+    if outside.any():
+        values[outside] = interpolator(points[outside] + ROUND_OFF_FRACTION * (center - points[outside]))
+    return values
+
+
 @dataclass
 class Node:
     coordinates: list[float]
@@ -106,8 +122,8 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
     These functions are used for further computation of functions to be used for
     projection of (rate, ps, pd) points.
     """
-    # Select one point in the middle of the convex hull
-    test_point = (qh.max_bound + qh.min_bound) / 2
+    # Select one point in the interior of the convex hull (the middle of the bounding box may be outside or on the hull)
+    test_point = qh.points[qh.vertices, :].mean(axis=0)
 
     non_boundary_simplices = np.argwhere(qh.equations[:, axis] != 0.0)[:, 0]
     eqs_non_boundary_unified = qh.equations[non_boundary_simplices, :] / qh.equations[
@@ -224,6 +240,9 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
                 upper_monotonic_correct_point_indices = np.unique(
                     qh.simplices[upper_monotonic_correct_simplices_indices, :].reshape(-1, 1)
                 )
+                if len(upper_monotonic_correct_point_indices) == 0:
+                    # No part with correct monotonicity, only the point with the highest rate
+                    upper_monotonic_correct_point_indices = qh.vertices[[qh.points[qh.vertices, axis].argmax()]]
                 upper_monotonic_correct_points = qh.points[upper_monotonic_correct_point_indices, :]
     else:
         upper_monotonic_correct_points = None
-- 
2.43.0


From 80356f872125a4e4f0cdf2917e857bcd1ed9abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 27/63] fix: tabulated compressor data that can not be
 interpolated is refused with a validation error

---
 .../core/sampled/compressor_model_sampled.py  | 21 +++++++++++++++----
 .../sampled/compressor_model_sampled_1d.py    |  5 +++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 012a728..6efd81f 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -4,10 +4,12 @@ import numpy as np
 import pandas as pd
 from numpy.typing import NDArray
 from scipy.interpolate import interp1d
+from scipy.spatial import QhullError
 
 from libecalc.common.consumption_type import ConsumptionType
 from libecalc.common.energy_usage_type import EnergyUsageType
 from libecalc.common.errors.ecalc_validation_error import (
+    EcalcValidationException,
     ProcessEqualLengthValidationException,
     ProcessMissingVariableValidationException,
     ProcessNegativeValuesValidationException,
@@ -125,12 +127,23 @@ class CompressorModelSampled:
         """
         self.support_max_rate: bool = RATE_NAME in self.required_variables
 
+        if geometric_dimension == 0:
+            raise EcalcValidationException(
+                message=f"At least one of {', '.join(self.required_variables)} must have more than one value."
+            )
+
         qhull_compressor_model = self._get_compressor_model(geometric_dimension, non_degenerated_variables)
         sampled_data_input = sampled_data[non_degenerated_variables + [function_value_header]]
-        self._qhull_sampled = qhull_compressor_model(
-            sampled_data=sampled_data_input,
-            function_header=FUNCTION_VALUE_HEADER,
-        )
+        try:
+            self._qhull_sampled = qhull_compressor_model(
+                sampled_data=sampled_data_input,
+                function_header=FUNCTION_VALUE_HEADER,
+            )
+        except QhullError as e:
+            raise EcalcValidationException(
+                message=f"The points given for {', '.join(non_degenerated_variables)} do not span an area to "
+                f"interpolate in, there are too few points or they are all in the same line/plane."
+            ) from e
 
     def get_consumption_type(self) -> ConsumptionType:
         return ConsumptionType.ELECTRICITY if self.function_values_are_power else ConsumptionType.FUEL
diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
index 42269dc..56872ae 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
@@ -5,6 +5,7 @@ import pandas as pd
 from numpy.typing import NDArray
 from scipy.interpolate import interp1d
 
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.common.errors.exceptions import IllegalStateException
 from libecalc.common.logger import logger
 from libecalc.domain.process.compressor.core.sampled.constants import (
@@ -103,10 +104,10 @@ class CompressorModelSampled1D:
             msg = (
                 f"1D compressor sampled data require unique variable input values. "
                 f"I got non-unique {self._x_column_name} values "
-                f"{', '.join(duplicates)}"
+                f"{', '.join(str(duplicate) for duplicate in duplicates)}"
             )
             logger.error(msg)
-            raise IllegalStateException(msg)
+            raise EcalcValidationException(message=msg)
 
         self._energy_function = interp1d(
             x=sorted_sampled_data[self._x_column_name],
-- 
2.43.0


From d49c7ca662aa5e115bf73ea60879d1e45a65db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 28/63] fix: incomplete operational settings of a consumer
 system are refused with a validation error

---
 ...yaml_energy_usage_model_consumer_system.py | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..b253d90 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -79,6 +79,16 @@ class YamlCompressorSystemOperationalSetting(YamlBase):
 
         return self
 
+    @model_validator(mode="after")
+    def ensure_mutually_exclusive_rates(self):
+        if self.rates is None and self.rate_fractions is None:
+            raise ValueError("One of RATES or RATE_FRACTIONS must be specified.")
+
+        if self.rates is not None and self.rate_fractions is not None:
+            raise ValueError("Only one of RATES or RATE_FRACTIONS may be specified.")
+
+        return self
+
     @model_validator(mode="after")
     def ensure_mutually_exclusive_suction_pressures(self):
         if self.suction_pressure is None and self.suction_pressures is None:
@@ -181,8 +191,20 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
                         f"specify rates for all compressors in the system."
                     )
 
+            # Validate crossover (index of the receiver, starting at 1, or 0 for no crossover)
+            if setting.crossover is not None:
+                if any(receiver < 0 or receiver > num_compressors for receiver in setting.crossover):
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER must be between 0 (no crossover) and "
+                        f"{num_compressors}, the number of compressors in the system."
+                    )
+
             # Validate rate_fractions (if using fractions)
             if setting.rate_fractions is not None:
+                if self.total_system_rate is None:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: TOTAL_SYSTEM_RATE is required when using RATE_FRACTIONS."
+                    )
                 if len(setting.rate_fractions) != num_compressors:
                     raise ValueError(
                         f"Operational setting {setting_num}: RATE_FRACTIONS has {len(setting.rate_fractions)} values "
@@ -277,8 +299,20 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                         f"specify rates for all pumps in the system."
                     )
 
+            # Validate crossover (index of the receiver, starting at 1, or 0 for no crossover)
+            if setting.crossover is not None:
+                if any(receiver < 0 or receiver > num_pumps for receiver in setting.crossover):
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER must be between 0 (no crossover) and "
+                        f"{num_pumps}, the number of pumps in the system."
+                    )
+
             # Validate rate_fractions (if using fractions)
             if setting.rate_fractions is not None:
+                if self.total_system_rate is None:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: TOTAL_SYSTEM_RATE is required when using RATE_FRACTIONS."
+                    )
                 if len(setting.rate_fractions) != num_pumps:
                     raise ValueError(
                         f"Operational setting {setting_num}: RATE_FRACTIONS has {len(setting.rate_fractions)} values "
@@ -302,6 +336,11 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                     )
 
             # Validate fluid_densities (pump-specific)
+            if not setting.fluid_densities and self.fluid_density is None:
+                raise ValueError(
+                    f"Operational setting {setting_num}: FLUID_DENSITIES must be specified when the system does not "
+                    f"have a common FLUID_DENSITY."
+                )
             if setting.fluid_densities is not None:
                 if len(setting.fluid_densities) != num_pumps:
                     raise ValueError(
-- 
2.43.0


From b04316954bd4a0f4b1a7809f2d7b57d3c9a18e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 29/63] fix: a non-numeric column in compressor data was
 silently treated as absent

---
 src/libecalc/presentation/yaml/mappers/facility_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index 35aae1b..de7f577 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
@@ -15,7 +15,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From 35c151b4040c8207b51c49e32b5d02fb50bade19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 30/63] fix: a pressure drop equal to the inlet pressure is
 reported as insufficient inlet pressure

---
 src/libecalc/process/process_units/choke.py            | 2 +-
 src/libecalc/process/process_units/pressure_dropper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_units/choke.py b/src/libecalc/process/process_units/choke.py
index 629e2d5..f6fad89 100644
--- a/src/libecalc/process/process_units/choke.py
+++ b/src/libecalc/process/process_units/choke.py
@@ -32,7 +32,7 @@ class Choke(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_change > 0.0:
             pressure_bara = inlet_stream.pressure_bara - self._pressure_change
-            if pressure_bara < 0.0:
+            if pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
diff --git a/src/libecalc/process/process_units/pressure_dropper.py b/src/libecalc/process/process_units/pressure_dropper.py
index 19a60f6..772ed14 100644
--- a/src/libecalc/process/process_units/pressure_dropper.py
+++ b/src/libecalc/process/process_units/pressure_dropper.py
@@ -32,7 +32,7 @@ class PressureDropper(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_drop_bara > 0.0:
             new_pressure_bara = inlet_stream.pressure_bara - self._pressure_drop_bara
-            if new_pressure_bara < 0.0:
+            if new_pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
-- 
2.43.0


From 7d0bd2e208626b5e6d2df23295c29d2c05826c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 31/63] fix: the constraint of a section which is not the last
 targets the outlet of its last unit

---
 .../yaml/mappers/process_simulation_mapper.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 17a9239..91863d6 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -436,12 +436,12 @@ class ProcessSimulationMapper:
                 zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)
             ):
                 # For the first n-1 sections, we put it at the last unit, for the nth section we put it before the outlet unit
-                constraint_position = -2
-                if nr == len(process_pipeline_sections):
-                    constraint_position = -1
+                constraint_position = -1
+                if nr == len(process_pipeline_sections) - 1:
+                    constraint_position = -2
                 target_process_unit_id = pipeline_section.get_process_units()[
                     constraint_position
-                ].get_id()  # The last unit is the outlet, so we take the one before that
+                ].get_id()  # In the last section the last unit is the outlet, so we take the one before that
                 # TODO: The mapped_section.target_process_unit_id is incorrect, as that is before we apply ASV and Pressure Control ...
                 try:
                     constraint = Constraint(
-- 
2.43.0


From 28669088e5a9a178f08f9b435b98efaff74f1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 32/63] fix: the recirculation returned with an upstream choke
 fits the choke found, not the one probed last

---
 .../process_solver/pressure_control/upstream_choke.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..2f9f89d 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -44,7 +44,6 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
         self._simulator = simulator
         self._root_finding_strategy = root_finding_strategy
         self._anti_surge_strategy = anti_surge_strategy
-        self._last_anti_surge_configurations: Sequence[Configuration[RecirculationConfiguration]] = []
 
     def reset(self) -> None:
         self._simulator.reset_configuration_handler(self._choke_configuration_handler_id)
@@ -74,14 +73,16 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             anti_surge_solution = self._anti_surge_strategy.apply(inlet_stream=inlet_stream)
             for anti_surge_configuration in anti_surge_solution.configuration:
                 self._simulator.apply_configuration(anti_surge_configuration)
-            self._last_anti_surge_configurations = anti_surge_solution.configuration
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
+        # The choke found is not necessarily the one probed last, and the recirculation has to fit the former.
+        self._simulator.apply_configuration(choke_config)
+        anti_surge_solution = self._anti_surge_strategy.apply(inlet_stream=inlet_stream)
         return Solution(
-            configuration=[*self._last_anti_surge_configurations, choke_config],
+            configuration=[*anti_surge_solution.configuration, choke_config],
             failure=finding.failure,
         )
-- 
2.43.0


From 01399bb41ced369f9d3643b317b942db7b003c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 33/63] fix: a target met by the speed search is not reported
 as unreachable by the pressure control

---
 .../process/process_solver/pipeline_section_solver.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/process/process_solver/pipeline_section_solver.py b/src/libecalc/process/process_solver/pipeline_section_solver.py
index 1027b1c..90b598b 100644
--- a/src/libecalc/process/process_solver/pipeline_section_solver.py
+++ b/src/libecalc/process/process_solver/pipeline_section_solver.py
@@ -140,6 +140,11 @@ class PipelineSectionSolver(PipelineSolver):
             failure = speed_finding.failure.with_source_id(self._pipeline_section.get_id())
             return Solution(configuration=speed_and_anti_surge_configurations, failure=failure)
 
+        if speed_finding.success:
+            # The speed meets the target within the tolerance of the speed search. Pressure control, with its own
+            # tolerance, could only report that target as unreachable.
+            return Solution(configuration=speed_and_anti_surge_configurations)
+
         outlet_at_chosen_speed = self._get_outlet_stream(
             inlet_stream=inlet_stream,
             configurations=speed_and_anti_surge_configurations,
-- 
2.43.0


From d053fca39c93edc813e4f05fff124929f5f57633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 34/63] fix: the section which decides the common speed is not
 reported below its target because of the speed tolerance

---
 .../process/process_solver/multi_pressure_solver.py      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/multi_pressure_solver.py b/src/libecalc/process/process_solver/multi_pressure_solver.py
index 1d61285..864095d 100644
--- a/src/libecalc/process/process_solver/multi_pressure_solver.py
+++ b/src/libecalc/process/process_solver/multi_pressure_solver.py
@@ -1,4 +1,5 @@
 from collections.abc import Sequence
+from math import isclose
 from typing import Final
 
 from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
@@ -19,6 +20,10 @@ from libecalc.process.process_solver.solver import (
     process_error_to_failure,
 )
 
+# The speed is found to a relative tolerance of 1e-5, and small deviations in the outlet of one section are amplified by
+# the next. An outlet which is this close (relative) below its target at the binding speed is on target.
+SPEED_SEARCH_PRESSURE_TOLERANCE = 1e-4
+
 
 class MultiPressureSolver(PipelineSolver):
     """Tries to find the shaft speed satisfying N ordered pressure targets, one per pipeline section. Pipeline sections share a
@@ -134,7 +139,9 @@ class MultiPressureSolver(PipelineSolver):
                     return solution
                 pipeline_section.get_runner().apply_configurations(pressure_control_solution.configuration)
                 outlet = pipeline_section.get_runner().run(inlet_stream=current_inlet)
-            elif outlet.pressure_bara < target:
+            elif outlet.pressure_bara < target and not isclose(
+                outlet.pressure_bara, target.value, rel_tol=SPEED_SEARCH_PRESSURE_TOLERANCE
+            ):
                 return Solution.target_pressure_unreachable(
                     configuration=solution.configuration,
                     achievable_pressure_bara=outlet.pressure_bara,
-- 
2.43.0


From 5a1758bade06eaaf1b7d70ccf18b5acfadda387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 35/63] fix: a train which can not handle any flow does not get
 a negative rate by round-off

---
 .../process/stream_distribution/common_stream_distribution.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 045bf4b..63acbc3 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -80,7 +80,8 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
                     temperature_kelvin=self._inlet_stream.temperature_kelvin,
                     pressure_bara=self._inlet_stream.pressure_bara,
                 )
-                excess_rate = item.get_excess_rate(stream)
+                # The excess of a train which can not handle anything may differ from its rate by round-off
+                excess_rate = min(item.get_excess_rate(stream), current_rate)
                 handled_rate = current_rate - excess_rate
                 overflow_map[overflow.to_id].append(excess_rate)
                 adjusted_rates[item_id] = handled_rate
-- 
2.43.0


From f563a66738ff3107d873dcb16938e321709229f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:43 +0000
Subject: [PATCH 36/63] fix: an upstream choke with a pressure drop ahead of a
 later stage does not fail on the lowest inlet pressures tried

---
 .../core/train/compressor_train_common_shaft.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..c837c3a 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
 
@@ -757,13 +758,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         target_discharge_pressure = constraints.discharge_pressure
 
+        def _calculate_discharge_pressure_given_inlet_pressure(inlet_pressure: float) -> float:
+            try:
+                return _calculate_train_result_given_inlet_pressure(inlet_pressure=inlet_pressure).discharge_pressure
+            except InsufficientInletPressureError:
+                # The inlet pressure is too low to overcome the pressure drop ahead of one of the stages
+                return 0.0
+
         result_inlet_pressure = find_root(
             lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage,
             upper_bound=target_discharge_pressure,
-            func=lambda x: (
-                _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure
-                - target_discharge_pressure
-            ),
+            func=lambda x: _calculate_discharge_pressure_given_inlet_pressure(x) - target_discharge_pressure,
         )
 
         train_result = _calculate_train_result_given_inlet_pressure(inlet_pressure=result_inlet_pressure)
-- 
2.43.0


From 5431d36d92630c1734798be26eb6febf550aa143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:44 +0000
Subject: [PATCH 37/63] fix: recirculation for a target pressure may use all
 the capacity left after removal of liquid

---
 src/libecalc/domain/process/compressor/core/train/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 58eb21b..20c640e 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -315,7 +315,7 @@ class CompressorTrainStage:
 
         max_recirculation = max(
             maximum_rate * float(result_no_recirculation.inlet_stream.density)
-            - inlet_stream_stage.mass_rate_kg_per_h
+            - result_no_recirculation.inlet_stream.mass_rate_kg_per_h
             - EPSILON,
             0,
         )
-- 
2.43.0


From f67e8d49e3c6085dc4b01851c646f2375a4e3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:44 +0000
Subject: [PATCH 38/63] fix: maximum power applies to the operation which is
 reported, for every pressure control

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index c837c3a..127d4bc 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -699,6 +699,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = new_train_result.above_maximum_power
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
@@ -901,6 +902,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
             target_pressure_status=target_pressure_status,
+            above_maximum_power=(
+                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+                if self.maximum_power
+                else False
+            ),
         )
 
     def _evaluate_train_with_common_asv(
-- 
2.43.0


From 60e247c1ebbf5169444dbad65aecf61f3361a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 39/63] fix: a rate raised above the maximum flow by
 recirculation is outside capacity

---
 .../value_objects/chart/compressor/compressor_chart.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py b/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
index d6ff35c..5b5a43f 100644
--- a/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
+++ b/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
@@ -295,6 +295,10 @@ class CompressorChart(Chart):
                     else ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
                 )
                 point_is_valid = False
+            if point_is_valid and rate_to_use > maximum_flow_rate_for_speed * (1 + NUMERICAL_TOLERANCE):
+                # recirculation has increased the rate above the maximum flow rate
+                chart_area_flag = ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
+                point_is_valid = False
 
         return point_is_valid, chart_area_flag, speed_to_use, rate_to_use
 
-- 
2.43.0


From 52ca4ca9704537f9b957b0dcd9cda9449d7e1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 40/63] fix: limits on the mass rate of a train take the
 pressure drop ahead of the first stage into account

---
 .../compressor/core/train/compressor_train_common_shaft.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 127d4bc..84c47c3 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -334,7 +334,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         fluid_model = self.fluid_model
         inlet_density = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
+            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
             temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
         ).density
 
@@ -941,7 +941,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         # Iterate on rate until pressures are met
         density_train_inlet_fluid = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
+            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
             temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
         ).density
 
-- 
2.43.0


From d0c12e390b05ab83a7ebeee1cdc453f44719bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 41/63] fix: the maximum rate is not affected by recirculation
 left over from the evaluation before

---
 src/libecalc/domain/process/compressor/core/train/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..f1ab6d6 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -401,6 +401,7 @@ class CompressorTrainModel(ABC):
                 discharge_pressure=discharge_pressure_value,
                 rates=[EPSILON],
             )
+            self.reset_rate_modifiers()
             try:
                 max_standard_rate[i] = self._get_max_std_rate_single_timestep(constraints=constraints)
             except EcalcError as e:
-- 
2.43.0


From c352561cfcdb986b755eaa9628b28392dc34b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 42/63] fix: the maximum rate of a train takes liquid removed
 ahead of the first compressor into account

---
 .../train/compressor_train_common_shaft.py    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 84c47c3..e27c455 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -332,11 +332,16 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         """
         assert constraints.suction_pressure is not None, "suction_pressure is required for maximum rate calculation"
         fluid_model = self.fluid_model
-        inlet_density = self._fluid_service.create_fluid(
-            fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
-            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
-        ).density
+        # Mass rate into the train per actual volume rate into the first compressor, i.e. after removal of any liquid
+        train_inlet_stream = self.train_inlet_stream(
+            pressure=constraints.suction_pressure,
+            temperature=self.stages[0].inlet_temperature_kelvin,
+            rate=1.0,
+        )
+        inlet_density = (
+            train_inlet_stream.mass_rate_kg_per_h
+            / self.stages[0].get_compressor_inlet_stream(train_inlet_stream).volumetric_rate_m3_per_hour
+        )
 
         def _calculate_train_result(mass_rate: float, speed: float) -> CompressorTrainResultSingleTimeStep:
             """Partial function of self.calculate_compressor_train_given_speed
@@ -549,7 +554,9 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 self.shaft.set_speed(result_speed)
                 compressor_train_result = _calculate_train_result_given_speed_at_stone_wall(speed=result_speed)
 
-                rate_to_return = compressor_train_result.mass_rate_kg_per_hour * (1 - RATE_CALCULATION_TOLERANCE)
+                rate_to_return = compressor_train_result.inlet_stream.mass_rate_kg_per_h * (
+                    1 - RATE_CALCULATION_TOLERANCE
+                )
 
             # Solution scenario 5. Too high pressure even at min speed and max flow rate.
             elif (
-- 
2.43.0


From d98da3fac73beb75858e253bb6d54e0b744754db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 43/63] fix: streams of a train are matched to its stages by
 name, whatever their order

---
 .../process/compressor/core/train/base.py       |  7 +++++++
 .../core/train/compressor_train_common_shaft.py |  2 ++
 .../yaml/mappers/consumer_function_mapper.py    | 17 +++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index f1ab6d6..1ede61c 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -48,6 +48,7 @@ class CompressorTrainModel(ABC):
         maximum_discharge_pressure: float | None = None,
         calculate_max_rate: bool | None = False,
         stage_number_interstage_pressure: int | None = None,
+        stream_number_per_port: list[int] | None = None,
     ):
         self.energy_usage_adjustment_constant = energy_usage_adjustment_constant
         self.energy_usage_adjustment_factor = energy_usage_adjustment_factor
@@ -67,6 +68,9 @@ class CompressorTrainModel(ABC):
 
         self._make_ports_from_splitters_and_mixers()
 
+        # Which of the streams in the evaluation input each port handles, by default in the same order as the ports
+        self._stream_number_per_port = stream_number_per_port
+
     @property
     def number_of_compressor_stages(self) -> int:
         return len(self.stages)
@@ -146,6 +150,9 @@ class CompressorTrainModel(ABC):
             raise EcalcValidationException("Interstage control pressure is required for model")
         if not has_interstage_pressure and intermediate_pressure is not None:
             raise EcalcValidationException("Model is not set up to receive interstage pressure")
+        if self._stream_number_per_port is not None and isinstance(fluid_model, list):
+            rate = np.array([rate[stream_number] for stream_number in self._stream_number_per_port])
+            fluid_model = [fluid_model[stream_number] for stream_number in self._stream_number_per_port]
         self._rate = rate
         self._suction_pressure = suction_pressure
         self._discharge_pressure = discharge_pressure
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index e27c455..50fbc0c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -78,6 +78,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         maximum_power: float | None = None,
         maximum_discharge_pressure: float | None = None,
         stage_number_interstage_pressure: int | None = None,
+        stream_number_per_port: list[int] | None = None,
     ):
         logger.debug(f"Creating CompressorTrainCommonShaft with n_stages: {len(stages)}")
         self.shaft = shaft
@@ -91,6 +92,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=calculate_max_rate,
             maximum_discharge_pressure=maximum_discharge_pressure,
             stage_number_interstage_pressure=stage_number_interstage_pressure,
+            stream_number_per_port=stream_number_per_port,
         )
 
         self._validate_maximum_discharge_pressure()
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 6cad3dd..8267d75 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -767,6 +767,22 @@ class CompressorModelMapper:
         if not any(fluid_models):
             raise EcalcValidationException("An inlet stream is required for this model.")
 
+        # The ports of the train are ordered by stage, and for each stage the outgoing streams come before the ingoing.
+        # The first port is the ingoing stream which enters the train at the first stage.
+        stream_numbers_per_stage = [
+            [i for name in (stage_config.stream or []) for i, s in enumerate(model.streams) if s.name == name]
+            for stage_config in model.stages
+        ]
+        stream_number_per_port = [
+            i
+            for stream_numbers in stream_numbers_per_stage
+            for i in sorted(stream_numbers, key=lambda i: fluid_models[i] is not None)
+        ]
+        train_inlet = next((i for i in stream_numbers_per_stage[0] if fluid_models[i] is not None), None)
+        if train_inlet is not None:
+            stream_number_per_port.remove(train_inlet)
+            stream_number_per_port.insert(0, train_inlet)
+
         interstage_pressures = {i for i, stage in enumerate(stages) if stage.has_control_pressure}
         stage_number_interstage_pressure = interstage_pressures.pop() if interstage_pressures else None
 
@@ -780,6 +796,7 @@ class CompressorModelMapper:
             maximum_power=model.maximum_power,
             pressure_control=_pressure_control_mapper(model),
             stage_number_interstage_pressure=stage_number_interstage_pressure,
+            stream_number_per_port=stream_number_per_port if train_inlet is not None else None,
         )
         return compressor_model, fluid_models
 
-- 
2.43.0


From 0df2119133a419d7c622e2dcf27b176a882299c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:13 +0000
Subject: [PATCH 44/63] fix: streams and stages of a train which do not match
 are refused

---
 .../yaml/mappers/consumer_function_mapper.py  | 32 +++++++++++--------
 .../models/yaml_compressor_trains.py          |  2 ++
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 8267d75..e02e3e7 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -702,11 +702,14 @@ class CompressorModelMapper:
         # Get the fluid service singleton
         fluid_service = NeqSimFluidService.instance()
 
-        stream_to_stage_map: dict[str, int] = {}
-        for stage_index, stage_config in enumerate(model.stages):
-            for stream_reference in stage_config.stream or []:
-                if stream_reference in stream_references:
-                    stream_to_stage_map.setdefault(stream_reference, stage_index)
+        used_stream_references = [
+            stream_reference for stage_config in model.stages for stream_reference in stage_config.stream or []
+        ]
+        for stream_reference in used_stream_references:
+            if stream_reference not in stream_references:
+                raise EcalcValidationException(f"Stream '{stream_reference}' of a stage is not defined in STREAMS.")
+            if used_stream_references.count(stream_reference) > 1:
+                raise EcalcValidationException(f"Stream '{stream_reference}' can only be connected to one stage.")
 
         stages = [
             self._create_compressor_train_stage(
@@ -750,11 +753,6 @@ class CompressorModelMapper:
                 ),
             )
             for stage_index, stage_config in enumerate(model.stages)
-            if not any(
-                stream_to_stage_map.setdefault(stream_reference, stage_index) != stage_index
-                for stream_reference in (stage_config.stream or [])
-                if stream_reference not in stream_references or stream_reference in stream_to_stage_map
-            )
         ]
 
         fluid_models = [
@@ -779,9 +777,10 @@ class CompressorModelMapper:
             for i in sorted(stream_numbers, key=lambda i: fluid_models[i] is not None)
         ]
         train_inlet = next((i for i in stream_numbers_per_stage[0] if fluid_models[i] is not None), None)
-        if train_inlet is not None:
-            stream_number_per_port.remove(train_inlet)
-            stream_number_per_port.insert(0, train_inlet)
+        if train_inlet is None:
+            raise EcalcValidationException("An ingoing stream is required for the first stage of this model.")
+        stream_number_per_port.remove(train_inlet)
+        stream_number_per_port.insert(0, train_inlet)
 
         interstage_pressures = {i for i, stage in enumerate(stages) if stage.has_control_pressure}
         stage_number_interstage_pressure = interstage_pressures.pop() if interstage_pressures else None
@@ -796,7 +795,7 @@ class CompressorModelMapper:
             maximum_power=model.maximum_power,
             pressure_control=_pressure_control_mapper(model),
             stage_number_interstage_pressure=stage_number_interstage_pressure,
-            stream_number_per_port=stream_number_per_port if train_inlet is not None else None,
+            stream_number_per_port=stream_number_per_port,
         )
         return compressor_model, fluid_models
 
@@ -1268,6 +1267,11 @@ class ConsumerFunctionMapper:
         )
 
         assert fluid_models is not None
+        if len(rates_per_stream) != len(fluid_models):
+            raise EcalcValidationException(
+                f"RATE_PER_STREAM needs one rate for each of the {len(fluid_models)} streams of "
+                f"'{model.compressor_train_model}', got {len(rates_per_stream)}."
+            )
         evaluation_input = CompressorEvaluationInput(
             rate=rates_per_stream,
             fluid_model=fluid_models,
diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index 8d54650..94ab478 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -245,6 +245,8 @@ class YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures(YamlCompressor
         )
         if count > 1:
             raise ValueError("Only one stage can have interstage control pressure defined.")
+        if self.stages and self.stages[0].interstage_control_pressure is not None:
+            raise ValueError("Interstage control pressure can not be defined for the first stage.")
         return self
 
 
-- 
2.43.0


From 51c874c10a1ecec6dc31e76e861b47bf9775d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:24 +0000
Subject: [PATCH 45/63] fix: individual ASV pressure control of a train with
 streams in or out between the stages

---
 .../train/compressor_train_common_shaft.py    | 107 +++++++++++-------
 .../process/compressor/core/train/stage.py    |  10 ++
 2 files changed, 77 insertions(+), 40 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 50fbc0c..2efd0f3 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.fluid_stream.fluid_stream import FluidStream
 from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
@@ -208,46 +209,21 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         """
         # This multiple streams train also requires rates to be set
         assert constraints.rates is not None
-        assert constraints.suction_pressure is not None
-        assert isinstance(self._fluid_model, list)
 
-        fluid_streams = []
-        for i, port in enumerate(self.ports):
-            if port.is_inlet_port:
-                stream_fluid_model = self._fluid_model[i]
-                if stream_fluid_model is not None:
-                    fluid_streams.append(
-                        self._fluid_service.create_stream_from_standard_rate(
-                            fluid_model=stream_fluid_model,
-                            pressure_bara=constraints.suction_pressure,
-                            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
-                            standard_rate_m3_per_day=constraints.rates[i],
-                        )
-                    )
+        fluid_streams = self._create_ingoing_streams(constraints=constraints)
 
         previous_stage_outlet_stream = train_inlet_stream = fluid_streams[0]
-        inlet_stream_counter = 1
         stage_results = []
 
         for stage_number, stage in enumerate(self.stages):
             stage_inlet_stream = previous_stage_outlet_stream
 
-            rates_out_of_splitter = [
-                constraints.rates[stream_number]
-                for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])
-            ]
-            streams_in_to_mixer = []
-            for stream_number in self.inlet_port_connected_to_stage.get(stage_number, []):
-                if stream_number > 0:
-                    if inlet_stream_counter < len(fluid_streams):
-                        # Create fluid at stage inlet conditions using fluid service
-                        new_fluid = stage.fluid_service.create_fluid(
-                            fluid_streams[inlet_stream_counter].fluid_model,
-                            stage_inlet_stream.pressure_bara,
-                            stage_inlet_stream.temperature_kelvin,
-                        )
-                        streams_in_to_mixer.append(fluid_streams[inlet_stream_counter].with_new_fluid(new_fluid))
-                        inlet_stream_counter += 1
+            rates_out_of_splitter, streams_in_to_mixer = self._get_additional_streams_for_stage(
+                stage_number=stage_number,
+                stage_inlet_stream=stage_inlet_stream,
+                ingoing_streams=fluid_streams,
+                constraints=constraints,
+            )
 
             stage_results.append(
                 stage.evaluate(
@@ -275,6 +251,54 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             target_pressure_status=target_pressure_status,
         )
 
+    def _create_ingoing_streams(self, constraints: CompressorTrainEvaluationInput) -> list[FluidStream]:
+        """Create the streams entering the train, in the order of the inlet ports."""
+        assert constraints.rates is not None
+        assert constraints.suction_pressure is not None
+        assert isinstance(self._fluid_model, list)
+
+        fluid_streams = []
+        for i, port in enumerate(self.ports):
+            if port.is_inlet_port:
+                stream_fluid_model = self._fluid_model[i]
+                if stream_fluid_model is not None:
+                    fluid_streams.append(
+                        self._fluid_service.create_stream_from_standard_rate(
+                            fluid_model=stream_fluid_model,
+                            pressure_bara=constraints.suction_pressure,
+                            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
+                            standard_rate_m3_per_day=constraints.rates[i],
+                        )
+                    )
+        return fluid_streams
+
+    def _get_additional_streams_for_stage(
+        self,
+        stage_number: int,
+        stage_inlet_stream: FluidStream,
+        ingoing_streams: list[FluidStream],
+        constraints: CompressorTrainEvaluationInput,
+    ) -> tuple[list[float], list[FluidStream]]:
+        """Get the rates taken out ahead of a stage, and the streams mixed in at the conditions of the stage inlet."""
+        assert constraints.rates is not None
+        rates_out_of_splitter = [
+            constraints.rates[stream_number]
+            for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])
+        ]
+        inlet_ports = [i for i, port in enumerate(self.ports) if port.is_inlet_port]
+        streams_in_to_mixer = []
+        for stream_number in self.inlet_port_connected_to_stage.get(stage_number, []):
+            if stream_number > 0:
+                ingoing_stream = ingoing_streams[inlet_ports.index(stream_number)]
+                # Create fluid at stage inlet conditions using fluid service
+                new_fluid = self.stages[stage_number].fluid_service.create_fluid(
+                    ingoing_stream.fluid_model,
+                    stage_inlet_stream.pressure_bara,
+                    stage_inlet_stream.temperature_kelvin,
+                )
+                streams_in_to_mixer.append(ingoing_stream.with_new_fluid(new_fluid))
+        return rates_out_of_splitter, streams_in_to_mixer
+
     def _validate_stages(self, stages: list[CompressorTrainStage]):
         # Check that the compressor stages have overlapping speed ranges
         min_speed_per_stage = []
@@ -878,24 +902,27 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         assert constraints.inlet_rate is not None
 
-        fluid_model = self.fluid_model
-        inlet_stream_train = self._fluid_service.create_stream_from_standard_rate(
-            fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
-            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
-            standard_rate_m3_per_day=constraints.inlet_rate,
-        )
+        ingoing_streams = self._create_ingoing_streams(constraints=constraints)
+        inlet_stream_train = ingoing_streams[0]
         pressure_ratio_per_stage = self.calculate_pressure_ratios_per_stage(
             suction_pressure=constraints.suction_pressure,
             discharge_pressure=constraints.discharge_pressure,
         )
         inlet_stream_stage = inlet_stream_train
         stage_results = []
-        for stage in self.stages:
+        for stage_number, stage in enumerate(self.stages):
             outlet_pressure_for_stage = inlet_stream_stage.pressure_bara * pressure_ratio_per_stage
+            rates_out_of_splitter, streams_in_to_mixer = self._get_additional_streams_for_stage(
+                stage_number=stage_number,
+                stage_inlet_stream=inlet_stream_stage,
+                ingoing_streams=ingoing_streams,
+                constraints=constraints,
+            )
             stage_result = stage.evaluate_given_speed_and_target_discharge_pressure(
                 target_discharge_pressure=outlet_pressure_for_stage,
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=rates_out_of_splitter,
+                streams_in_to_mixer=streams_in_to_mixer,
             )
             inlet_stream_stage = stage_result.outlet_stream
             stage_results.append(stage_result)
diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 20c640e..359be1c 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -279,6 +279,8 @@ class CompressorTrainStage:
         self,
         inlet_stream_stage: FluidStream,
         target_discharge_pressure: float,
+        rates_out_of_splitter: list[float] | None = None,
+        streams_in_to_mixer: list[FluidStream] | None = None,
     ) -> CompressorTrainStageResultSingleTimeStep:
         """
         Calculate the result of a single-speed compressor stage given a target discharge pressure.
@@ -297,6 +299,8 @@ class CompressorTrainStage:
             inlet_stream_stage (FluidStream): The inlet stream for the stage, containing pressure, temperature,
                 and other fluid properties.
             target_discharge_pressure (float): The target discharge pressure for the stage in bar absolute [bara].
+            rates_out_of_splitter (list[float] | None, optional): Additional rates to the LegacySplitter if defined.
+            streams_in_to_mixer (list[FluidStream] | None, optional): Additional streams to the LegacyMixer if defined.
 
         Returns:
             CompressorTrainStageResultSingleTimeStep: The result of the evaluation for the compressor stage,
@@ -307,6 +311,8 @@ class CompressorTrainStage:
         self.rate_modifier.mass_rate_to_recirculate = 0
         result_no_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
 
         # result_no_recirculation.inlet_stream.density_kg_per_m3 will have correct pressure and temperature
@@ -322,6 +328,8 @@ class CompressorTrainStage:
         self.rate_modifier.mass_rate_to_recirculate = max_recirculation
         result_max_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
         if result_no_recirculation.discharge_pressure < target_discharge_pressure:
             return result_no_recirculation
@@ -334,6 +342,8 @@ class CompressorTrainStage:
             self.rate_modifier.mass_rate_to_recirculate = additional_mass_rate
             return self.evaluate(
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=rates_out_of_splitter,
+                streams_in_to_mixer=streams_in_to_mixer,
             )
 
         result_mass_rate = find_root(
-- 
2.43.0


From 98bdc38edddbe3ae4699782537c29025883bc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 46/63] fix: a choke downstream of the first part of a train is
 taken into account for the intermediate pressure

---
 src/libecalc/domain/process/compressor/core/train/base.py | 8 ++++----
 .../core/train/compressor_train_common_shaft.py           | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 1ede61c..8e4bb04 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -315,11 +315,14 @@ class CompressorTrainModel(ABC):
         self,
         constraints: CompressorTrainEvaluationInput,
         results: CompressorTrainResultSingleTimeStep | list[CompressorTrainStageResultSingleTimeStep],
+        calculated_intermediate_pressure: float | None = None,
     ) -> TargetPressureStatus:
         """Check to see how the calculated pressures compare to the required pressures
         Args:
             constraints: The evaluation constraints given to the evaluation
             results: The results from the compressor train evaluation
+            calculated_intermediate_pressure: The intermediate pressure, if other than the discharge pressure of the
+                last stage ahead of it (i.e. if there is a choke downstream of that stage)
 
         Returns:
             TargetPressureStatus: The status of the target pressures
@@ -327,20 +330,17 @@ class CompressorTrainModel(ABC):
         if isinstance(results, list):
             train_suction_pressure = results[0].inlet_pressure
             calculated_discharge_pressure = results[-1].discharge_pressure
-            calculated_intermediate_pressure = None
             stage_suction_pressure = results[0].inlet_pressure
         else:
             train_suction_pressure = results.suction_pressure
             calculated_discharge_pressure = results.discharge_pressure
             stage_suction_pressure = results.stage_results[0].inlet_stream.pressure_bara
-            if constraints.rates is not None:
+            if calculated_intermediate_pressure is None and constraints.rates is not None:
                 calculated_intermediate_pressure = (
                     results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
                     if self.stage_number_interstage_pressure is not None
                     else None
                 )
-            else:
-                calculated_intermediate_pressure = None
         if stage_suction_pressure is not None:
             if (stage_suction_pressure / train_suction_pressure) - 1 > PRESSURE_CALCULATION_TOLERANCE:
                 return TargetPressureStatus.ABOVE_TARGET_SUCTION_PRESSURE
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 2efd0f3..6615e0c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1499,6 +1499,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_pressure_status = self.check_target_pressures(
             constraints=constraints,
             results=train_result,
+            calculated_intermediate_pressure=compressor_train_results_to_return_first_part.discharge_pressure,
         )
 
         train_result.target_pressure_status = target_pressure_status
-- 
2.43.0


From 139846068ef26747a277adeee36c800b8cee90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 47/63] fix: the parts of a train have no intermediate pressure
 of their own

---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 6615e0c..4fc3320 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1273,7 +1273,6 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False,
             maximum_power=self.maximum_power,
             pressure_control=pressure_control_first_part,
-            stage_number_interstage_pressure=self.stage_number_interstage_pressure,
         )
 
         compressor_train_first_part._fluid_model = fluid_model_first_part
@@ -1301,7 +1300,6 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False,
             maximum_power=self.maximum_power,
             pressure_control=pressure_control_last_part,
-            stage_number_interstage_pressure=self.stage_number_interstage_pressure,
         )
         compressor_train_last_part._fluid_model = fluid_model_last_part
 
-- 
2.43.0


From c8fe252d2bb9f9125c9a60cb41f4f3109caa3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 48/63] fix: the second part of a train gets the rate left
 after removal of liquid in the first

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 4fc3320..02fa14c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1427,6 +1427,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             ].outlet_stream.fluid_model.eos_model,
         )
 
+        # The rate into the last part is what is left, i.e. without any liquid removed in the first part
+        std_rates_last_part[0] = (
+            compressor_train_results_first_part_with_optimal_speed_result.outlet_stream.standard_rate_sm3_per_day
+        )
+
         # Get the speed found for the last part - will be used to compare with the first part
         shaft_speed_last_part = compressor_train_last_part.find_fixed_shaft_speed_given_constraints(
             constraints=constraints_last_part,
-- 
2.43.0


From dd8ca8cad737c4ad8a85777b26741d1c0be06ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 49/63] fix: limits on the mass rate of a train are taken at
 speeds which all its stages can run at

---
 .../core/train/compressor_train_common_shaft.py        | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 02fa14c..7cbfffc 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -424,17 +424,15 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         )
 
         # Using first stage as absolute (initial) bounds on min and max rate at max speed. Checking validity later.
+        first_stage_chart = self.stages[0].compressor.compressor_chart
         min_mass_rate_at_max_speed_first_stage = (
-            self.stages[0].compressor.compressor_chart.maximum_speed_curve.minimum_rate * inlet_density
+            float(first_stage_chart.minimum_rate_as_function_of_speed(self.maximum_speed)) * inlet_density
         )
         max_mass_rate_at_max_speed_first_stage = (
-            self.stages[0].compressor.compressor_chart.maximum_speed_curve.maximum_rate * inlet_density
+            float(first_stage_chart.maximum_rate_as_function_of_speed(self.maximum_speed)) * inlet_density
         )
         max_mass_rate_at_min_speed_first_stage = (
-            self.stages[0].compressor.compressor_chart.maximum_rate_as_function_of_speed(
-                self.stages[0].compressor.compressor_chart.minimum_speed
-            )
-            * inlet_density
+            float(first_stage_chart.maximum_rate_as_function_of_speed(self.minimum_speed)) * inlet_density
         )
 
         result_min_mass_rate_at_max_speed_first_stage = _calculate_train_result_at_max_speed_given_mass_rate(
-- 
2.43.0


From 78d848a0fdf754d5d60785ff0ec44af2eda006d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:03 +0000
Subject: [PATCH 50/63] fix: the maximum rate for a maximum power may be below
 the minimum flow of the first stage

The search for the maximum rate within the maximum power started at the rate
through the first stage after recirculation, which may be above the maximum
rate found.
---
 .../compressor/core/train/compressor_train_common_shaft.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 7cbfffc..7fc194e 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -616,13 +616,13 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             if result_with_minimum_rate.power_megawatt > maximum_power:
                 return 0.0  # can't find solution
             else:
-                # iterate between rate with minimum power, and the previously found rate to return, to find the
+                # iterate between the minimum rate, and the previously found rate to return, to find the
                 # maximum rate that gives power consumption below maximum power
 
                 result = self._fluid_service.mass_rate_to_standard_rate(
                     fluid_model,
                     find_root(
-                        lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour,
+                        lower_bound=result_with_minimum_rate.inlet_stream.mass_rate_kg_per_h,
                         upper_bound=rate_to_return,
                         func=lambda x: (
                             self.evaluate_given_constraints(
-- 
2.43.0


From cf07700a2e6f50aafaa10dbd205fe44090bb15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:06 +0000
Subject: [PATCH 51/63] fix: no maximum rate for trains which are brought down
 to the pressure by recirculation in later stages

---
 .../core/train/compressor_train_common_shaft.py       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 7fc194e..0349f5e 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -587,7 +587,16 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 constraints.discharge_pressure is not None
                 and result_max_mass_rate_at_min_speed.discharge_pressure > constraints.discharge_pressure
             ):
-                return 0.0
+                # Recirculation in the other stages may still bring the pressure down
+                rate_to_return = maximize_x_given_boolean_condition_function(
+                    x_min=0,
+                    x_max=max_mass_rate_at_min_speed_first_stage,
+                    bool_func=lambda x: _calculate_train_result_given_ps_pd(mass_rate=x).is_valid,
+                    convergence_tolerance=1e-3,
+                    maximum_number_of_iterations=20,
+                )
+                if rate_to_return == 0:
+                    return 0.0
             else:
                 msg = "You should not end up here. Please contact eCalc support."
                 logger.exception(msg)
-- 
2.43.0


From 746af30f629ba99e27e58e5837f553a3ec3c2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:12 +0000
Subject: [PATCH 52/63] fix: the polytropic efficiency of a generic chart from
 a design point can be given as a percentage

---
 .../yaml/yaml_types/models/yaml_compressor_chart.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
index b87cfd0..aeced99 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
@@ -1,7 +1,7 @@
 import enum
 from typing import Annotated, Literal, Union
 
-from pydantic import Field
+from pydantic import Field, model_validator
 
 from libecalc.presentation.yaml.yaml_types import YamlBase
 from libecalc.presentation.yaml.yaml_types.models.model_reference import ModelName
@@ -125,7 +125,6 @@ class YamlGenericFromDesignPointChart(YamlBase):
     polytropic_efficiency: float = Field(
         ...,
         gt=0,
-        le=1,
         description="Polytropic efficiency for compressor chart",
         title="POLYTROPIC_EFFICIENCY",
     )
@@ -133,6 +132,16 @@ class YamlGenericFromDesignPointChart(YamlBase):
     design_head: float = Field(..., ge=0, description="Design head for generic compressor chart", title="DESIGN_HEAD")
     units: YamlUnits
 
+    @model_validator(mode="after")
+    def check_polytropic_efficiency(self):
+        maximum = 100 if self.units.efficiency == YamlEfficiencyUnits.PERCENTAGE else 1
+        if self.polytropic_efficiency > maximum:
+            raise ValueError(
+                f"POLYTROPIC_EFFICIENCY should be less than or equal to {maximum} when given as "
+                f"{self.units.efficiency.value}."
+            )
+        return self
+
 
 YamlCompressorChart = Annotated[
     Union[YamlSingleSpeedChart, YamlVariableSpeedChart, YamlGenericFromDesignPointChart, YamlGenericFromInputChart],
-- 
2.43.0


From d64da4b2151a4fd71d43a74d7d8649e1e9385b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 53/63] fix: a chart made from the input has capacity for all
 of the input

The heads were iterated together for the chart, and one by one when evaluated,
and the point of the maximum head was outside the chart after round-off.
---
 .../chart/compressor/chart_creator.py         |  7 +++--
 .../charts/generic_from_input_chart_data.py   | 28 ++++++++-----------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
index 2bdf860..088d316 100644
--- a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
+++ b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
@@ -75,9 +75,10 @@ class CompressorChartCreator:
         maximum_actual_rate = np.max(actual_volume_rates_m3_per_hour)
         maximum_head_value = np.max(heads_joule_per_kg)
 
-        # Values to scale input with
-        scaling_rate_to_unified = np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified)
-        scaling_head_to_unified = np.divide(maximum_head_value, maximum_head_on_maximum_speed_curve_unified)
+        # Values to scale input with, slightly increased to have the maximum values within the chart after round-off
+        margin = 1 + 1e-12
+        scaling_rate_to_unified = np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified) * margin
+        scaling_head_to_unified = np.divide(maximum_head_value, maximum_head_on_maximum_speed_curve_unified) * margin
 
         initial_design_head_unified = 1
         initial_design_rate_unified = 1
diff --git a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
index 51319da..bf5ab02 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
@@ -48,24 +48,18 @@ class GenericFromInputChartData(ChartData):
         def efficiency_as_function_of_rate_and_head(rates, heads):
             return np.full_like(rates, fill_value=self._polytropic_efficiency, dtype=float)
 
-        polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(
-            inlet_streams=inlet_streams,
-            outlet_pressure=np.asarray(self._outlet_pressure),
-            polytropic_efficiency_vs_rate_and_head_function=efficiency_as_function_of_rate_and_head,
-            fluid_service=self._fluid_service,
-        )
-
-        head_joule_per_kg = polytropic_enthalpy_change_joule_per_kg * polytropic_efficiency
-        inlet_actual_rate_m3_per_hour = np.asarray([stream.volumetric_rate_m3_per_hour for stream in inlet_streams])
-
-        # Convert numpy arrays to lists for proper type annotation
-        actual_rates_list: list[float] = inlet_actual_rate_m3_per_hour.astype(float).tolist()
+        # One point at a time, as when the points are evaluated, to get exactly the same heads
+        heads_list: list[float] = []
+        for inlet_stream, outlet_pressure in zip(inlet_streams, self._outlet_pressure):
+            polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(
+                inlet_streams=inlet_stream,
+                outlet_pressure=float(outlet_pressure),
+                polytropic_efficiency_vs_rate_and_head_function=efficiency_as_function_of_rate_and_head,
+                fluid_service=self._fluid_service,
+            )
+            heads_list.append(float(polytropic_enthalpy_change_joule_per_kg * polytropic_efficiency))
 
-        # Handle union type for head_joule_per_kg
-        if isinstance(head_joule_per_kg, np.ndarray):
-            heads_list: list[float] = head_joule_per_kg.astype(float).tolist()
-        else:
-            heads_list = [float(head_joule_per_kg)]
+        actual_rates_list: list[float] = [float(stream.volumetric_rate_m3_per_hour) for stream in inlet_streams]
 
         return CompressorChartCreator.from_rate_and_head_values(
             actual_volume_rates_m3_per_hour=actual_rates_list,
-- 
2.43.0


From 0459c27dd64d5e9ec6a910f554c54140ae4dc3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 54/63] fix: a simplified train may have steps without flow and
 pressures

The number of stages is not increased by round-off either, and is at least one.
---
 .../train/simplified_train/simplified_train.py   |  4 ++++
 .../charts/generic_from_input_chart_data.py      | 16 ++++++++++++----
 .../yaml/mappers/consumer_function_mapper.py     |  2 ++
 .../mappers/simplified_train_mapping_utils.py    |  8 +++++---
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py b/src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py
index ce34c8d..c36ca6e 100644
--- a/src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py
+++ b/src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py
@@ -121,6 +121,10 @@ class CompressorTrainSimplified(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         assert constraints.inlet_rate is not None
 
+        if constraints.inlet_rate <= 0:
+            # No flow, there may be no pressures either
+            return CompressorTrainResultSingleTimeStep.create_empty(number_of_stages=len(self.stages))
+
         pressure_ratios_per_stage = self.calculate_pressure_ratios_per_stage(
             suction_pressure=constraints.suction_pressure, discharge_pressure=constraints.discharge_pressure
         )
diff --git a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
index bf5ab02..5766d95 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
@@ -34,6 +34,14 @@ class GenericFromInputChartData(ChartData):
 
     @cached_property
     def _chart(self) -> ChartData:
+        # Steps without pressure have no flow either, there is nothing to make capacity for
+        points = [
+            (inlet_rate, inlet_pressure, outlet_pressure)
+            for inlet_rate, inlet_pressure, outlet_pressure in zip(
+                self._standard_rates, self._inlet_pressure, self._outlet_pressure
+            )
+            if inlet_pressure > 0
+        ]
         inlet_streams = [
             self._fluid_service.create_stream_from_standard_rate(
                 fluid_model=self._fluid_model,
@@ -41,7 +49,7 @@ class GenericFromInputChartData(ChartData):
                 temperature_kelvin=self._inlet_temperature,
                 standard_rate_m3_per_day=inlet_rate,
             )
-            for inlet_rate, inlet_pressure in zip(self._standard_rates, self._inlet_pressure)
+            for inlet_rate, inlet_pressure, _ in points
         ]
 
         # Static efficiency regardless of rate and head
@@ -50,7 +58,7 @@ class GenericFromInputChartData(ChartData):
 
         # One point at a time, as when the points are evaluated, to get exactly the same heads
         heads_list: list[float] = []
-        for inlet_stream, outlet_pressure in zip(inlet_streams, self._outlet_pressure):
+        for inlet_stream, (_, _, outlet_pressure) in zip(inlet_streams, points):
             polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(
                 inlet_streams=inlet_stream,
                 outlet_pressure=float(outlet_pressure),
@@ -62,8 +70,8 @@ class GenericFromInputChartData(ChartData):
         actual_rates_list: list[float] = [float(stream.volumetric_rate_m3_per_hour) for stream in inlet_streams]
 
         return CompressorChartCreator.from_rate_and_head_values(
-            actual_volume_rates_m3_per_hour=actual_rates_list,
-            heads_joule_per_kg=heads_list,
+            actual_volume_rates_m3_per_hour=actual_rates_list or [0.0],
+            heads_joule_per_kg=heads_list or [0.0],
             polytropic_efficiency=self._polytropic_efficiency,
         )
 
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index e02e3e7..4221336 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -638,6 +638,8 @@ class CompressorModelMapper:
                     calculate_pressure_ratio_per_stage(
                         suction_pressure=sp, discharge_pressure=dp, n_stages=len(yaml_stages)
                     )
+                    if sp > 0
+                    else 1.0  # There may be no pressures when there is no flow
                     for sp, dp in zip(suction_pressures, discharge_pressures)
                 ]
             )
diff --git a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
index 0a35293..f8f660a 100644
--- a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
+++ b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
@@ -74,8 +74,10 @@ def calculate_number_of_stages(
         List of prepared CompressorTrainStage objects with charts
     """
     # Calculate number of stages needed based on maximum pressure ratio
-    pressure_ratios = discharge_pressures / suction_pressures
-    maximum_train_pressure_ratio = max(pressure_ratios)
+    has_pressure = suction_pressures > 0  # There may be no pressures when there is no flow
+    pressure_ratios = discharge_pressures[has_pressure] / suction_pressures[has_pressure]
+    maximum_train_pressure_ratio = max(pressure_ratios, default=1.0)
 
     x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
-    return math.ceil(x)
+    # No extra stage because of round-off, and at least one even though there is nothing to compress
+    return max(1, math.ceil(round(x, 9)))
-- 
2.43.0


From 70e1d5f2264f97dbc4c34fc5b67be69b34309a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 55/63] fix: the maximum rate of a compressor with turbine uses
 the compressor's power adjustment

---
 .../domain/process/compressor/core/base.py     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index 803cd61..7913600 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -52,12 +52,7 @@ class CompressorWithTurbineModel:
         energy_result = compressor_energy_function_result.get_energy_result()
         if energy_result.power is not None:
             # The compressor energy function evaluates to a power load in this case
-            load_adjusted = np.where(
-                np.asarray(energy_result.power.values) > 0,
-                np.asarray(energy_result.power.values) * self._energy_usage_adjustment_factor
-                + self._energy_usage_adjustment_constant,
-                np.asarray(energy_result.power.values),
-            )
+            load_adjusted = self._get_adjusted_load(np.asarray(energy_result.power.values))
             turbine_result = self.turbine_model.evaluate(load=load_adjusted)
             compressor_energy_function_result.turbine_result = turbine_result
 
@@ -68,6 +63,13 @@ class CompressorWithTurbineModel:
 
         return compressor_energy_function_result
 
+    def _get_adjusted_load(self, power: NDArray[np.float64]) -> NDArray[np.float64]:
+        return np.where(
+            power > 0,
+            power * self._energy_usage_adjustment_factor + self._energy_usage_adjustment_constant,
+            power,
+        )
+
     def _calculate_remaining_capacity_in_train_given_standard_rate(
         self, standard_rate: float, suction_pressure: float, discharge_pressure: float, max_power: float
     ) -> float:
@@ -83,7 +85,7 @@ class CompressorWithTurbineModel:
         energy_result = result.get_energy_result()
         if energy_result.power is None or len(energy_result.power.values) == 0:
             return 0.0  # Return 0 if no power value available
-        return float(energy_result.power.values[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
+        return float(self._get_adjusted_load(np.asarray(energy_result.power.values))[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
 
     def get_max_standard_rate(
         self,
@@ -114,7 +116,7 @@ class CompressorWithTurbineModel:
         max_power = self.turbine_model.max_power
 
         if energy_result.power is not None:
-            powers = np.asarray(energy_result.power.values)
+            powers = self._get_adjusted_load(np.asarray(energy_result.power.values))
             for i, (power, suction_pressure, discharge_pressure) in enumerate(
                 zip(powers, suction_pressures, discharge_pressures)
             ):
-- 
2.43.0


From fb236e6f60a8b65ac69a28a88b107677e54f3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 56/63] fix: a turbine is overloaded when its adjusted load is
 above the maximum load

---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From 38512d557070d9673d62f6e8351ca0783a59c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 57/63] fix: the peak maximum from shore is the highest within
 the reported period

---
 src/libecalc/presentation/exporter/queries.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..cac0f8a 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 
 from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
 from libecalc.common.units import Unit
-from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
+from libecalc.common.utils.rates import TimeSeriesVolumes
 from libecalc.presentation.exporter.domain.exportable import Exportable
 
 
@@ -263,16 +263,12 @@ class MaxUsageFromShoreQuery(Query):
 
         sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
         sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
-        period_keys = list(sorted_result.keys())
 
         # Max usage from shore is time series float (values)
         # The maximum value with in each period in sorted_results should be found for the new periods
 
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
+            period: max(value for key, value in sorted_result.items() if Period.intersects(key, period))
             for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
         }
 
-- 
2.43.0


From e89a4f5d2eae338f3b74eea58ac3c5200aeacd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 58/63] fix: a value that could not be calculated does not
 remove other values from the LTP and STP export

---
 src/libecalc/presentation/exporter/infrastructure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/exporter/infrastructure.py b/src/libecalc/presentation/exporter/infrastructure.py
index eb97232..d39bd6a 100644
--- a/src/libecalc/presentation/exporter/infrastructure.py
+++ b/src/libecalc/presentation/exporter/infrastructure.py
@@ -1,4 +1,3 @@
-import math
 from collections.abc import Iterable
 from datetime import datetime
 from typing import TypeVar, assert_never
@@ -29,7 +28,8 @@ class TimeSeriesAttribute(Attribute):
         self._time_series = time_series
 
     def datapoints(self) -> Iterable[tuple[Period, float]]:
-        return self._time_series.datapoints()
+        # Values that could not be calculated count as zero, also when aggregated with values that could
+        return self._time_series.fill_nan(0).datapoints()
 
     def get_meta(self) -> AttributeMeta:
         return self._attribute_meta
@@ -207,8 +207,6 @@ class InstallationExportable(Exportable):
 
             for period, attribute_meta in self._combine_categories(fuel_category, consumer_category):  # type: ignore[arg-type]
                 fuel_consumption_volumes = fuel_rate.rate.for_period(period).to_volumes()
-                if any(math.isnan(x) for x in fuel_consumption_volumes.values):
-                    pass
                 attributes.append(
                     TimeSeriesAttribute(
                         time_series=fuel_consumption_volumes,
-- 
2.43.0


From 6b281e96a3e7995ee702c0506bcd68f085680cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 59/63] fix: output files of runs with a dot in the name prefix
 keep the whole prefix

---
 src/ecalc_cli/commands/run.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 3c36581..75f77db 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -166,8 +166,6 @@ def run(
 
         run_info.end = datetime.now()
 
-        output_prefix: Path = output_folder / name_prefix
-
         results_dto = get_asset_result(model)
 
         if (
@@ -207,7 +205,7 @@ def run(
                 simple_output=not detailed_output,
                 date_format_option=int(date_format_option.value),
             )
-            write_output(output=csv_data, output_file=output_prefix.with_suffix(".csv"))
+            write_output(output=csv_data, output_file=output_folder / f"{name_prefix}.csv")
 
             # Emission intensity CSV
             intensity_csv_data = emission_intensity_to_csv(
@@ -215,7 +213,7 @@ def run(
                 DateTimeFormats.get_format(int(date_format_option.value)),
             )
             write_output(
-                output=intensity_csv_data, output_file=output_prefix.with_name(f"{output_prefix.stem}_intensity.csv")
+                output=intensity_csv_data, output_file=output_folder / f"{name_prefix}_intensity.csv"
             )
 
         if json:
@@ -228,7 +226,7 @@ def run(
                 simple_output=not detailed_output,
             )
             # Emission intensity JSON
-            intensity_json_path = output_prefix.with_name(f"{output_prefix.stem}_intensity.json")
+            intensity_json_path = output_folder / f"{name_prefix}_intensity.json"
             json_intensity_data = to_json(
                 emission_intensity_results_resampled,
                 date_format_option=int(date_format_option.value),
-- 
2.43.0


From 8906b359e2bcdf67ffd9e4458d8d89b88abfa3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 60/63] fix: a model without CO2 emissions has no emission
 intensity instead of failing the run

---
 src/ecalc_cli/emission_intensity.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ecalc_cli/emission_intensity.py b/src/ecalc_cli/emission_intensity.py
index ba86df7..37a50be 100644
--- a/src/ecalc_cli/emission_intensity.py
+++ b/src/ecalc_cli/emission_intensity.py
@@ -45,6 +45,9 @@ class EmissionIntensityCalculator:
         self.emissions = emissions
         self.frequency = frequency
 
+        if self._co2_emission_result() is None:
+            return  # No CO2 in the model, hence no intensity
+
         self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
         self._intensity_calculator_sm3 = EmissionIntensity(
             emission_cumulative=self._cumulative_rate_kg(),
@@ -62,7 +65,11 @@ class EmissionIntensityCalculator:
         Returns:
             EmissionIntensityResults: The calculated emission intensity results.
         """
-        emission_intensities = []
+        emission_intensities: list[EmissionIntensityResult] = []
+
+        co2_emission_result = self._co2_emission_result()
+        if co2_emission_result is None:
+            return EmissionIntensityResults(results=emission_intensities)
 
         if self.frequency == Frequency.YEAR:
             intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
@@ -73,8 +80,8 @@ class EmissionIntensityCalculator:
 
         emission_intensities.append(
             EmissionIntensityResult(
-                name=self._co2_emission_result().name,
-                periods=self._co2_emission_result().periods,
+                name=co2_emission_result.name,
+                periods=co2_emission_result.periods,
                 intensity_sm3=self._intensity_calculator_sm3.calculate_cumulative(),
                 intensity_boe=self._intensity_calculator_boe.calculate_cumulative(),
                 intensity_yearly_sm3=intensity_yearly_sm3,
@@ -83,8 +90,10 @@ class EmissionIntensityCalculator:
         )
         return EmissionIntensityResults(results=emission_intensities)
 
-    def _co2_emission_result(self) -> EmissionResult:
-        return next((value for key, value in self.emissions.items() if key.lower() == "co2"))
+    def _co2_emission_result(self) -> EmissionResult | None:
+        return next((value for key, value in self.emissions.items() if key.lower() == "co2"), None)
 
     def _cumulative_rate_kg(self) -> TimeSeriesVolumesCumulative:
-        return self._co2_emission_result().get_cumulative_kg()
+        co2_emission_result = self._co2_emission_result()
+        assert co2_emission_result is not None
+        return co2_emission_result.get_cumulative_kg()
-- 
2.43.0


From 49a8d219bfdede1ae13fd838afa1c0e2944ee376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 61/63] fix: refuse an outlet constraint that has no process
 units instead of crashing

---
 .../presentation/yaml/mappers/process/process_partitioner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
index 5e6cdc7..b3ca91c 100644
--- a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
+++ b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
@@ -70,6 +70,11 @@ class ProcessPartitioner:
             current_units = []
 
         if terminal_constraint is not None:
+            if not current_units:
+                raise EcalcValidationException(
+                    "The constraint at the process pipeline outlet has no process units; "
+                    "the last process unit already has a constraint."
+                )
             sections.append(
                 MappedSection(
                     process_units=current_units,
-- 
2.43.0


From aada20a0acc0a9e85ffcf0da1aa89666f4e02694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 62/63] fix: refuse a pipeline event that changes an unknown
 process unit instead of crashing

---
 .../yaml/mappers/process_simulation_mapper.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 91863d6..3a6a681 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -271,10 +271,17 @@ class ProcessSimulationMapper:
                         f"Pipeline event CHANGE_TO '{change_to_yaml_process_unit}' does not match any compressor (chart) unit."
                     )
 
+            change_target = unit_name_to_id.get(yaml_event.change_target)
+            if change_target is None:
+                raise EcalcValidationException(
+                    f"Pipeline event CHANGE_TARGET '{yaml_event.change_target}' does not match any named process unit "
+                    f"in pipeline '{yaml_pipeline.name}'."
+                )
+
             events.append(
                 PipelineEvent(
                     action=PipelineEventAction(yaml_event.type.value),
-                    change_target=unit_name_to_id[yaml_event.change_target],
+                    change_target=change_target,
                     change_to=change_to_unit,
                     change_type=PipelineEventChangeType(yaml_event.change_type.value),
                     change_time=ecalc_event.start,
-- 
2.43.0


From 5f37a7946df64874ca3c59e2e2a71fb4ee810ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:52 +0000
Subject: [PATCH 63/63] fix: the found recirculation of a compressor is applied
 before that of the next is searched

---
 .../process/process_solver/pressure_control/individual_asv.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/individual_asv.py b/src/libecalc/process/process_solver/pressure_control/individual_asv.py
index e92a51e..fa41df4 100644
--- a/src/libecalc/process/process_solver/pressure_control/individual_asv.py
+++ b/src/libecalc/process/process_solver/pressure_control/individual_asv.py
@@ -99,6 +99,8 @@ class IndividualASVPressureControlStrategy(PressureControlStrategy):
             configuration: Configuration[RecirculationConfiguration | ChokeConfiguration] = Configuration(
                 configuration_handler_id=recirculation_loop_id, value=finding.configuration
             )
+            # The last rate tried by the search is not necessarily the one found; the next stages depend on it
+            self._simulator.apply_configuration(configuration)
             configurations.append(configuration)
 
         return Solution(
-- 
2.43.0

