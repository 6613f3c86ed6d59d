From 574e03089dff269b1ba107685de8350bde8e13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 01/39] fix: use the exact logarithm whenever the float one is
 near an integer

_index_to_size only fell back to exact arithmetic when the float result was slightly below
an integer, so a result rounded up to exactly an integer gave a size one too large.
---
 .../hypothesis/internal/conjecture/choice.py  | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..c6fbe0f 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -209,21 +209,17 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     # the closed-form inverse of _size_to_index is
     #   size = math.floor(math.log(index * (alphabet_size - 1) + 1, alphabet_size))
     # which is fast, but suffers from float precision errors. As performance is
-    # relatively critical here, we'll use this formula by default, but fall back to
-    # a much slower integer-only logarithm when the calculation is too close for
-    # comfort.
+    # relatively critical here, we'll use this formula by default, and check it with
+    # exact integer arithmetic when the calculation is too close for comfort.
     total = index * (alphabet_size - 1) + 1
     size = math.log(total, alphabet_size)
 
-    # if this computation is close enough that it could have been affected by
-    # floating point errors, use a much slower integer-only logarithm instead,
-    # which is guaranteed to be precise.
-    if 0 < math.ceil(size) - size < 1e-7:
-        s = 0
-        while total >= alphabet_size:
-            total //= alphabet_size
-            s += 1
-        return s
+    # if this computation is close enough to an integer, on either side, that it
+    # could have been affected by floating point errors, the exact size is that
+    # integer or the one below it.
+    nearest = round(size)
+    if abs(size - nearest) < 1e-7:
+        return nearest if alphabet_size**nearest <= total else nearest - 1
     return math.floor(size)
 
 
-- 
2.43.0


From a7b679e904640d8881a555eef33ec8ba68ababb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 02/39] fix: LazySequenceCopy.pop returned the original value
 of an element that had been set to None

---
 .../src/hypothesis/internal/conjecture/junkdrawer.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 800c2f2..72b5159 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -204,10 +204,10 @@ class LazySequenceCopy(Generic[T]):
             raise IndexError("Cannot pop from empty list")
         i = self.__underlying_index(i)
 
-        v = None
-        if self.__mask is not None:
-            v = self.__mask.pop(i, None)
-        if v is None:
+        # a masked value may itself be None
+        if self.__mask is not None and i in self.__mask:
+            v = self.__mask.pop(i)
+        else:
             v = self.__values[i]
 
         if self.__popped_indices is None:
-- 
2.43.0


From 5ed2ec9b900c1d2621392f5cdfe3fb1e12d994de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 03/39] fix: equal IntLists compared unequal when only one had
 outgrown array storage

---
 .../src/hypothesis/internal/conjecture/junkdrawer.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 72b5159..3ccba11 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -130,14 +130,15 @@ class IntList(Sequence[int]):
             return True
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying == other.__underlying
+        # an array is never equal to a list, whatever they contain
+        return list(self.__underlying) == list(other.__underlying)
 
     def __ne__(self, other: object) -> bool:
         if self is other:
             return False
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying != other.__underlying
+        return list(self.__underlying) != list(other.__underlying)
 
     def append(self, n: int) -> None:
         i = len(self)
-- 
2.43.0


From 13a9dcf141d3ab08aa5b1bc8355b2e04ed2b46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 04/39] fix: integer draws with the same weighted values but
 other weights shared one set of constraints

---
 .../src/hypothesis/internal/conjecture/choice.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index c6fbe0f..aa20391 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -609,7 +609,11 @@ def choice_constraints_key(choice_type, constraints):
         return (
             constraints["min_value"],
             constraints["max_value"],
-            None if constraints["weights"] is None else tuple(constraints["weights"]),
+            (
+                None
+                if constraints["weights"] is None
+                else tuple(constraints["weights"].items())
+            ),
             constraints["shrink_towards"],
         )
     return tuple(constraints[key] for key in sorted(constraints))
-- 
2.43.0


From 4d1d2d5ee1cf5afdfeb2164b41c25196179d46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 05/39] fix: filtering by str.split let through whitespace,
 which splits into nothing

---
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 4f38627..2022461 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -131,8 +131,6 @@ _nonempty_names = (
     "expandtabs",
     "join",
     "lower",
-    "rsplit",
-    "split",
     "splitlines",
     "swapcase",
     "title",
@@ -148,7 +146,9 @@ _nonempty_and_content_names = (
     "isspace",
     "istitle",
     "lstrip",
+    "rsplit",
     "rstrip",
+    "split",
     "strip",
 )
 
-- 
2.43.0


From a2b5986140c61fa69d6639faefe1f98bc5d6bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 06/39] fix: text filtered by the match method of a multiline
 pattern did not have to match at the start, and some patterns raised an error

---
 .../src/hypothesis/strategies/_internal/strings.py   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 2022461..d27d6d6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -247,9 +247,15 @@ def _string_filter_rewrite(self, kind, condition):
         from hypothesis.strategies._internal.regex import regex_strategy
 
         if condition.__name__ == "match":
-            # Replace with an easier-to-handle equivalent condition
-            caret, close = ("^(?:", ")") if kind is str else (b"^(?:", b")")
-            pattern = re.compile(caret + pattern.pattern + close, flags=pattern.flags)
+            # Replace with an easier-to-handle equivalent condition, unless the pattern
+            # can't be put in a group - it may start with "(?i)", or end in a comment.
+            start, close = (r"\A(?:", ")") if kind is str else (rb"\A(?:", b")")
+            try:
+                pattern = re.compile(
+                    start + pattern.pattern + close, flags=pattern.flags
+                )
+            except re.error:
+                return None
             condition = pattern.search
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
-- 
2.43.0


From d48c1378a64702e0c616a9a3dd0da9789a269eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 07/39] fix: a character query whose bounds admit nothing gave
 an interval of negative length

---
 hypothesis-python/src/hypothesis/internal/charmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/charmap.py b/hypothesis-python/src/hypothesis/internal/charmap.py
index bf6bb59..9e94fd5 100644
--- a/hypothesis-python/src/hypothesis/internal/charmap.py
+++ b/hypothesis-python/src/hypothesis/internal/charmap.py
@@ -332,8 +332,9 @@ def query(
     base = _query_for_key(catkey)
     result = []
     for u, v in base:
-        if v >= min_codepoint and u <= max_codepoint:
-            result.append((max(u, min_codepoint), min(v, max_codepoint)))
+        u, v = max(u, min_codepoint), min(v, max_codepoint)
+        if u <= v:
+            result.append((u, v))
     result = (IntervalSet(result) | character_intervals) - exclude_intervals
     if context is None or not context.data.provider.avoid_realization:
         limited_category_index_cache[qkey] = result
-- 
2.43.0


From e22314e6f21f3177fb85f1dd725af1dcd3e8a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 08/39] fix: filtering text by the split method of a pattern
 lost the empty string

---
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index d27d6d6..f393f6a 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -281,11 +281,11 @@ def _string_filter_rewrite(self, kind, condition):
         elif condition.__name__ == "split":
             warnings.warn(
                 f"You applied {pretty(condition)} as a filter, but this allows "
-                f"any nonempty string!  Did you mean .search ?",
+                f"any string at all!  Did you mean .search ?",
                 HypothesisWarning,
                 stacklevel=3,
             )
-            return self.filter(bool)
+            return self
 
     # We use ListStrategy filter logic for the conditions that *only* imply
     # the string is nonempty.  Here, we increment the min_size but still apply
-- 
2.43.0


From 99ed1ff1f9c80bd46480c45b62aae05c112c3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 09/39] fix: from_regex padded matches of ^ and $ with newlines
 which are not in the alphabet

---
 .../src/hypothesis/strategies/_internal/regex.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index b51e90e..41f59e0 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -267,7 +267,9 @@ def regex_strategy(
     if is_unicode:
         base_padding_strategy = st.text(alphabet=alphabet)
         empty = st.just("")
-        newline = st.just("\n")
+        # We can only pad with newlines if they are in our alphabet
+        has_newline = not chars_not_in_alphabet(alphabet, "\n")
+        newline = st.just("\n") if has_newline else st.nothing()
     else:
         base_padding_strategy = st.binary()
         empty = st.just(b"")
-- 
2.43.0


From 73c0895eac279a3e3167c4a61dd6ba5ed67aea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 10/39] fix: filtering dates by comparison to a datetime was an
 error, and filters printed their bounds

---
 .../src/hypothesis/strategies/_internal/datetime.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 12f5154..b9e1234 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -274,6 +274,7 @@ class DateStrategy(SearchStrategy):
             and len(args := condition.args) == 1
             and not condition.keywords
             and isinstance(arg := args[0], dt.date)
+            and not isinstance(arg, dt.datetime)
             and condition.func in (op.lt, op.le, op.eq, op.ge, op.gt)
         ):
             try:
@@ -290,7 +291,6 @@ class DateStrategy(SearchStrategy):
             }[condition.func]
             lo = max(lo, self.min_value)
             hi = min(hi, self.max_value)
-            print(lo, hi)
             if hi < lo:
                 return nothing()
             if lo <= self.min_value and self.max_value <= hi:
-- 
2.43.0


From 836581686dff6bb80c1dae6699c0d1ce483034b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 11/39] fix: a decorated filter function was rewritten as if it
 was not decorated

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..759ecf5 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -251,6 +251,9 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     # help to clarify it.  We start by finding the source code for our predicate and
     # parsing it to an abstract syntax tree; if this fails for any reason we bail out
     # and fall back to standard rejection sampling (a running theme).
+    if hasattr(predicate, "__wrapped__"):
+        # The source code we'd find is for the wrapped function.
+        return unchanged
     try:
         if predicate.__name__ == "<lambda>":
             source = extract_lambda_source(predicate)
-- 
2.43.0


From ca2ca023525f374b86226813f84cc53b791c1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 12/39] fix: filtering floats by a comparison lost or let
 through values, for bounds that are not floats, zero, or infinite

---
 .../src/hypothesis/internal/filtering.py      | 35 ++++++++++++-------
 .../strategies/_internal/numbers.py           | 10 +++---
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 759ecf5..c77dc79 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -315,23 +315,34 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
 
+    def to_float(x):
+        try:
+            return float(x)
+        except OverflowError:
+            return math.copysign(math.inf, x > 0 or -1)
+
+    # The bound may not be representable as a float, so we round it to the nearest
+    # float inside the bound.  Note that -0.0 and 0.0 compare as equal, so a bound
+    # of either zero must allow both of them, or if excluded, neither.
     if "min_value" in constraints:
-        min_value = constraints["min_value"]
-        constraints["min_value"] = float(constraints["min_value"])
-        if min_value < constraints["min_value"] or (
-            min_value == constraints["min_value"]
-            and constraints.get("exclude_min", False)
+        bound = to_float(min_value := constraints["min_value"])
+        if bound < min_value or (
+            bound == min_value and constraints.get("exclude_min", False)
         ):
-            constraints["min_value"] = next_up(constraints["min_value"])
+            if bound == math.inf:
+                return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
+            bound = next_up(bound or 0.0)
+        constraints["min_value"] = bound or -0.0
 
     if "max_value" in constraints:
-        max_value = constraints["max_value"]
-        constraints["max_value"] = float(constraints["max_value"])
-        if max_value > constraints["max_value"] or (
-            max_value == constraints["max_value"]
-            and constraints.get("exclude_max", False)
+        bound = to_float(max_value := constraints["max_value"])
+        if bound > max_value or (
+            bound == max_value and constraints.get("exclude_max", False)
         ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+            if bound == -math.inf:
+                return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
+            bound = next_down(bound or -0.0)
+        constraints["max_value"] = bound or 0.0
 
     constraints = {
         k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..9746955 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -211,10 +211,11 @@ class FloatStrategy(SearchStrategy[float]):
             return NanStrategy()
 
         constraints, pred = get_float_predicate_bounds(condition)
-        if not constraints:
+        if not constraints and pred is not None:
             return super().filter(pred)
-        min_bound = max(constraints.get("min_value", -math.inf), self.min_value)
-        max_bound = min(constraints.get("max_value", math.inf), self.max_value)
+        # In case of a tie between -0.0 and 0.0, we want our own (narrower) bound
+        min_bound = max(self.min_value, constraints.get("min_value", -math.inf))
+        max_bound = min(self.max_value, constraints.get("max_value", math.inf))
 
         # Adjustments for allow_subnormal=False, if any need to be made
         if -self.smallest_nonzero_magnitude < min_bound < 0:
@@ -231,7 +232,8 @@ class FloatStrategy(SearchStrategy[float]):
         if (
             min_bound > self.min_value
             or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            # no comparison is true of nan
+            or self.allow_nan
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From 328b85b7ff24ca789985160ad9da2f45b5da34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 13/39] fix: filtering numbers by comparison to an integer too
 large for a float was an error

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index c77dc79..4fd5bb6 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -230,7 +230,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # nan, without converting arg to float
         ):
             return unchanged
         options = {
@@ -290,7 +290,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "min_value" in constraints:
         if constraints["min_value"] == -math.inf:
             del constraints["min_value"]
-        elif math.isinf(constraints["min_value"]):
+        elif constraints["min_value"] == math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
@@ -300,7 +300,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
             del constraints["max_value"]
-        elif math.isinf(constraints["max_value"]):
+        elif constraints["max_value"] == -math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
-- 
2.43.0


From 8f726b66a01c90e9316a60344da34f5f81f38775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 14/39] fix: lists of at most two elements which were filtered
 to be nonempty could not be drawn

---
 .../strategies/_internal/collections.py         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..61bd2e6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -154,10 +154,6 @@ class ListStrategy(SearchStrategy[list[Ex]]):
         self.min_size = min_size or 0
         self.max_size = max_size if max_size is not None else math.inf
         assert 0 <= self.min_size <= self.max_size
-        self.average_size = min(
-            max(self.min_size * 2, self.min_size + 5),
-            0.5 * (self.min_size + self.max_size),
-        )
         self.element_strategy = elements
         if min_size > BUFFER_SIZE:
             raise InvalidArgument(
@@ -167,6 +163,14 @@ class ListStrategy(SearchStrategy[list[Ex]]):
                 "a HealthCheck error."
             )
 
+    @property
+    def average_size(self) -> float:
+        # Not an attribute, because rewriting a filter may change our bounds.
+        return min(
+            max(self.min_size * 2, self.min_size + 5),
+            0.5 * (self.min_size + self.max_size),
+        )
+
     def calc_label(self) -> int:
         return combine_labels(self.class_label, self.element_strategy.label)
 
@@ -235,11 +239,6 @@ class ListStrategy(SearchStrategy[list[Ex]]):
             # Unsatisfiable filters are easiest to understand without rewriting.
             if new.min_size > new.max_size:
                 return SearchStrategy.filter(self, condition)
-            # Recompute average size; this is cheaper than making it into a property.
-            new.average_size = min(
-                max(new.min_size * 2, new.min_size + 5),
-                0.5 * (new.min_size + new.max_size),
-            )
             if pred is None:
                 return new
             return SearchStrategy.filter(new, condition)
-- 
2.43.0


From acd2eb968a6d1a01509c0eccbaa1e87e1d1c9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 15/39] fix: integers filtered by comparison to an integer of
 another type could not be drawn

---
 .../src/hypothesis/internal/filtering.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 4fd5bb6..3aea490 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -294,8 +294,10 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
-        elif constraints.get("exclude_min", False):
-            constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:
+            constraints["min_value"] = int(constraints["min_value"])
+            if constraints.get("exclude_min", False):
+                constraints["min_value"] += 1
 
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
@@ -304,8 +306,10 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
-        elif constraints.get("exclude_max", False):
-            constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = int(constraints["max_value"])
+            if constraints.get("exclude_max", False):
+                constraints["max_value"] -= 1
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
-- 
2.43.0


From 42e79644e00697ca62a4ca4652a1938b8af95f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 16/39] fix: filtering an always-empty collection to be
 nonempty was an internal error

---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 61bd2e6..ccd3968 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -218,9 +218,11 @@ class ListStrategy(SearchStrategy[list[Ex]]):
 
     def filter(self, condition: Callable[[list[Ex]], Any]) -> SearchStrategy[list[Ex]]:
         if condition in self._nonempty_filters or is_identity_function(condition):
-            assert self.max_size >= 1, "Always-empty is special cased in st.lists()"
             if self.min_size >= 1:
                 return self
+            # Unsatisfiable filters are easiest to understand without rewriting.
+            if self.max_size < 1:
+                return SearchStrategy.filter(self, condition)
             new = copy.copy(self)
             new.min_size = 1
             return new
-- 
2.43.0


From 25f16b0751d054e7c846c344c799011b0b0ab170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 17/39] fix: filtering text by isascii lost the empty string

---
 hypothesis-python/src/hypothesis/strategies/_internal/strings.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index f393f6a..1807e7d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -141,7 +141,6 @@ _nonempty_and_content_names = (
     "isupper",
     "isalnum",
     "isalpha",
-    "isascii",
     "isdigit",
     "isspace",
     "istitle",
-- 
2.43.0


From 05af4f431160f7027eae2e852ae46585f114c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 18/39] fix: filtering floats that can only be infinite to be
 finite was an internal error

---
 .../src/hypothesis/strategies/_internal/numbers.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 9746955..8074904 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -191,9 +191,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_value = max(self.min_value, next_up(float("-inf")))
+            max_value = min(self.max_value, next_down(float("inf")))
+            if min_value > max_value:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_value,
+                max_value=max_value,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
-- 
2.43.0


From 049a35ac9c23bea983e69a0465550f6856d8f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 19/39] fix: from_regex raised an internal error for a negated
 byte that ignores case

---
 hypothesis-python/src/hypothesis/strategies/_internal/regex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 41f59e0..9dca051 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -426,6 +426,8 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 # case-insensitive-matches, with or without combining dot character.
                 # We therefore have to chain .swapcase() calls until a fixpoint.
                 stack = [c.swapcase()]
+                if not is_unicode:
+                    blacklist.add(stack.pop())
                 while stack:
                     for char in stack.pop():
                         blacklist.add(char)
-- 
2.43.0


From 62eb466e97162b80648f66d1a835a120c0d24c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 20/39] fix: decimals could be rounded past their bounds

---
 .../src/hypothesis/strategies/_internal/core.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 8e35eba..226cbf3 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1718,9 +1718,9 @@ def decimals(
         factor = Decimal(10) ** -places
         min_num, max_num = None, None
         if min_value is not None:
-            min_num = ceil(ctx(min_value).divide(min_value, factor))
+            min_num = ceil(Fraction(min_value) / Fraction(factor))
         if max_value is not None:
-            max_num = floor(ctx(max_value).divide(max_value, factor))
+            max_num = floor(Fraction(max_value) / Fraction(factor))
         if min_num is not None and max_num is not None and min_num > max_num:
             raise InvalidArgument(
                 f"There are no decimals with {places} places between "
@@ -1734,9 +1734,15 @@ def decimals(
                 ceil(math.log10(abs(val.numerator) or 1) + math.log10(val.denominator))
                 + 1
             )
-            return Context(prec=precision or 1).divide(
+            result = Context(prec=precision or 1).divide(
                 Decimal(val.numerator), val.denominator
             )
+            # The quotient may have been rounded past one of the bounds.
+            if min_value is not None and result < min_value:
+                return min_value
+            if max_value is not None and result > max_value:
+                return max_value
+            return result
 
         strat = fractions(min_value, max_value).map(fraction_to_decimal)
     # Compose with sampled_from for infinities and NaNs as appropriate
-- 
2.43.0


From bc8ee667bfd2f321fdc4d3e254b37665804111d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 21/39] fix: floats accepted bounds between which only excluded
 subnormals lie

---
 .../src/hypothesis/strategies/_internal/numbers.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 8074904..857b5a9 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -485,6 +485,18 @@ def floats(
                 f"excludes values above float{width}'s "
                 f"smallest negative normal {-smallest_normal}"
             )
+    elif (
+        min_value is not None
+        and max_value is not None
+        and (
+            0 < min_value <= max_value < smallest_normal
+            or -smallest_normal < min_value <= max_value < 0
+        )
+    ):
+        raise InvalidArgument(
+            f"allow_subnormal=False excludes every float between "
+            f"{min_value=} and {max_value=}"
+        )
 
     if min_value is None:
         min_value = float("-inf")
-- 
2.43.0


From 2dc9a584ad954b1032e5c20b6cc54840dc1bc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 22/39] fix: floats between two excluded subnormals could be
 one of them

---
 .../src/hypothesis/internal/floats.py         | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/floats.py b/hypothesis-python/src/hypothesis/internal/floats.py
index 7083519..c862c91 100644
--- a/hypothesis-python/src/hypothesis/internal/floats.py
+++ b/hypothesis-python/src/hypothesis/internal/floats.py
@@ -169,20 +169,22 @@ def make_float_clamper(
         # using the mantissa bits.
         mant = float_to_int(abs(f)) & mantissa_mask
         f = min_value + range_size * (mant / mantissa_mask)
+        # Enforce the bounds (just in case of floating point arithmetic error)
+        f = clamp(min_value, f, max_value)
 
         # if we resampled into the space disallowed by smallest_nonzero_magnitude,
         # default to smallest_nonzero_magnitude.
         if 0 < abs(f) < smallest_nonzero_magnitude:
-            f = smallest_nonzero_magnitude
-            # we must have either -smallest_nonzero_magnitude <= min_value or
-            # smallest_nonzero_magnitude >= max_value, or no values would be
-            # possible. If smallest_nonzero_magnitude is not valid (because it's
-            # larger than max_value), then -smallest_nonzero_magnitude must be valid.
-            if smallest_nonzero_magnitude > max_value:
-                f *= -1
-
-        # Re-enforce the bounds (just in case of floating point arithmetic error)
-        return clamp(min_value, f, max_value)
+            # we must have either -smallest_nonzero_magnitude >= min_value or
+            # smallest_nonzero_magnitude <= max_value or a zero between the bounds,
+            # or no values would be possible.
+            if smallest_nonzero_magnitude <= max_value:
+                f = smallest_nonzero_magnitude
+            elif -smallest_nonzero_magnitude >= min_value:
+                f = -smallest_nonzero_magnitude
+            else:
+                f = clamp(min_value, 0.0, max_value)
+        return f
 
     return float_clamper
 
-- 
2.43.0


From 003b7fe92f35c6bd1e1057baf41bd7a5a0cd90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 23/39] fix: complex_numbers with a narrow width failed on
 bounds its components cannot hold

---
 .../hypothesis/strategies/_internal/core.py   | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 226cbf3..f82c3bb 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -49,6 +49,7 @@ import attr
 from hypothesis._settings import note_deprecation
 from hypothesis.control import (
     RandomSeeder,
+    assume,
     cleanup,
     current_build_context,
     deprecate_random_in_strategy,
@@ -86,7 +87,7 @@ from hypothesis.internal.conjecture.utils import (
     identity,
 )
 from hypothesis.internal.entropy import get_seeder_and_restorer
-from hypothesis.internal.floats import float_of
+from hypothesis.internal.floats import float_of, width_smallest_normals
 from hypothesis.internal.reflection import (
     define_function_signature,
     get_pretty_function_description,
@@ -2041,6 +2042,35 @@ def complex_numbers(
             # https://numpy.org/doc/stable/reference/arrays.scalars.html#complex-floating-point-types
         )
     component_width = width // 2
+    smallest_normal = width_smallest_normals[component_width]
+
+    # Each component is at most as large as the magnitude, so we round the bounds
+    # to the component width once, rather than drawing components from bounds which
+    # disagree with them.  A bound may also be too large for any finite component.
+    try:
+        min_magnitude = float_of(min_magnitude, component_width)
+    except OverflowError:
+        min_magnitude = math.inf
+    if max_magnitude is not None:
+        try:
+            max_magnitude = float_of(max_magnitude, component_width)
+        except OverflowError:
+            max_magnitude = None
+    if min_magnitude == math.inf and not allow_infinity:
+        raise InvalidArgument(
+            f"There are no finite {width=} complex numbers with components as "
+            "large as min_magnitude"
+        )
+    if (
+        not allow_subnormal
+        and min_magnitude > 0
+        and max_magnitude is not None
+        and max_magnitude < smallest_normal
+    ):
+        raise InvalidArgument(
+            f"allow_subnormal=False excludes every magnitude between "
+            f"{min_magnitude=} and {max_magnitude=}"
+        )
     allow_kw = {
         "allow_nan": allow_nan,
         "allow_infinity": allow_infinity,
@@ -2059,11 +2089,9 @@ def complex_numbers(
 
     @composite
     def constrained_complex(draw):
-        # We downcast drawn floats to the desired (component) width so we
-        # guarantee the resulting complex values are representable. Note
-        # truncating the mantissa bits with float_of() cannot increase the
-        # magnitude of a float, so we are guaranteed to stay within the allowed
-        # range. See https://github.com/HypothesisWorks/hypothesis/issues/3573
+        # We round bounds to the desired (component) width so we guarantee the
+        # resulting complex values are representable.
+        # See https://github.com/HypothesisWorks/hypothesis/issues/3573
 
         # Draw the imaginary part, and determine the maximum real part given
         # this and the max_magnitude
@@ -2071,19 +2099,16 @@ def complex_numbers(
             zi = draw(floats(**allow_kw))
             rmax = None
         else:
-            zi = draw(
-                floats(
-                    -float_of(max_magnitude, component_width),
-                    float_of(max_magnitude, component_width),
-                    **allow_kw,
-                )
-            )
+            zi = draw(floats(-max_magnitude, max_magnitude, **allow_kw))
             rmax = float_of(cathetus(max_magnitude, zi), component_width)
         # Draw the real part from the allowed range given the imaginary part
         if min_magnitude == 0 or math.fabs(zi) >= min_magnitude:
             zr = draw(floats(None if rmax is None else -rmax, rmax, **allow_kw))
         else:
             rmin = float_of(cathetus(min_magnitude, zi), component_width)
+            if not allow_subnormal and rmax is not None and 0 < rmin:
+                # There may be no real part left, having excluded subnormals
+                assume(rmax >= smallest_normal)
             zr = draw(floats(rmin, rmax, **allow_kw))
         # Order of conditions carefully tuned so that for a given pair of
         # magnitude arguments, we always either draw or do not draw the bool
-- 
2.43.0


From 87b32d7a142d123c5be0922c2865ac3fdf8287a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 24/39] fix: the directory database lost every value if the
 temporary directory is on another filesystem

---
 hypothesis-python/src/hypothesis/database.py | 34 +++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 8442185..df95ff8 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -384,14 +384,18 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 # directory, and only move to the final path after. This avoids
                 # any intermediate state where the file is created (and empty)
                 # but not yet written to.
-                fd, tmpname = tempfile.mkstemp()
-                tmppath = Path(tmpname)
-                os.write(fd, value)
-                os.close(fd)
-                try:
-                    tmppath.rename(path)
-                except OSError:  # pragma: no cover
-                    tmppath.unlink()
+                # The default temporary directory may be on another filesystem,
+                # in which case we have to use a temporary file next to the keys.
+                for tmpdir in (None, self.path):
+                    fd, tmpname = tempfile.mkstemp(dir=tmpdir)
+                    tmppath = Path(tmpname)
+                    os.write(fd, value)
+                    os.close(fd)
+                    try:
+                        tmppath.rename(path)
+                        break
+                    except OSError:
+                        tmppath.unlink()
                 assert not tmppath.exists()
         except OSError:  # pragma: no cover
             pass
@@ -498,9 +502,14 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 src_path = Path(event.src_path)
                 dest_path = Path(event.dest_path)
                 k1 = hash_to_key.get(src_path.parent.name)
-                k2 = hash_to_key.get(dest_path.parent.name)
+                key_hash = dest_path.parent.name
+
+                if key_hash == _metakeys_hash:
+                    hash_to_key[dest_path.name] = dest_path.read_bytes()
+                    return
 
-                if k1 is None or k2 is None:  # pragma: no cover
+                k2 = hash_to_key.get(key_hash)
+                if k2 is None:  # pragma: no cover
                     return
 
                 try:
@@ -508,7 +517,10 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 except OSError:  # pragma: no cover
                     return
 
-                _broadcast_change(("delete", (k1, value)))
+                # there is no source key for a value that was written to a
+                # temporary file first.
+                if k1 is not None:
+                    _broadcast_change(("delete", (k1, value)))
                 _broadcast_change(("save", (k2, value)))
 
         # If we add a listener to a DirectoryBasedExampleDatabase whose database
-- 
2.43.0


From f7d4ec277c9209114b4a3542a2abc5de33da0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 25/39] fix: an artifact without directory entries was a
 KeyError

---
 hypothesis-python/src/hypothesis/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index df95ff8..33da3cc 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -788,12 +788,13 @@ class GitHubArtifactDatabase(ExampleDatabase):
                 for filename in namelist:
                     fileinfo = zf.getinfo(filename)
                     if fileinfo.is_dir():
-                        self._access_cache[PurePath(filename)] = set()
+                        self._access_cache.setdefault(PurePath(filename), set())
                     else:
                         # Get the keypath from the filename
                         keypath = PurePath(filename).parent
                         # Add the file to the keypath
-                        self._access_cache[keypath].add(PurePath(filename))
+                        files = self._access_cache.setdefault(keypath, set())
+                        files.add(PurePath(filename))
         except BadZipFile:
             warnings.warn(
                 "The downloaded artifact from GitHub is invalid. "
-- 
2.43.0


From ab112a94f862a2bbbf5ebfe131bd6e36e1583e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 26/39] fix: the Pareto front could hold one test case twice

A test case reached by misaligned choices has a result that is not equal to the
one from its own choices, so both stayed in the front.
---
 .../src/hypothesis/internal/conjecture/pareto.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/pareto.py b/hypothesis-python/src/hypothesis/internal/conjecture/pareto.py
index a9be152..bdb9c50 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/pareto.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/pareto.py
@@ -160,7 +160,7 @@ class ParetoFront:
             self.front.add(data)
             return True
 
-        if data in self.front:
+        if data in self:
             return True
 
         # We add data to the pareto front by adding it unconditionally and then
@@ -249,7 +249,7 @@ class ParetoFront:
 
             for v in to_remove:
                 self._remove(v)
-            return data in self.front
+            return data in self
         finally:
             self.__pending = None
 
@@ -259,8 +259,16 @@ class ParetoFront:
         self.__eviction_listeners.append(f)
 
     def __contains__(self, data: object) -> bool:
-        return isinstance(data, (ConjectureData, ConjectureResult)) and (
-            data.as_result() in self.front
+        if not isinstance(data, (ConjectureData, ConjectureResult)):
+            return False
+        result = data.as_result()
+        if isinstance(result, _Overrun):
+            return False
+        # The same test case can be reached in more than one way, for example by
+        # running misaligned choices, and then its results need not be equal.
+        i = self.front.bisect_left(result)
+        return i < len(self.front) and (
+            sort_key(self.front[i].nodes) == sort_key(result.nodes)
         )
 
     def __iter__(self) -> Iterator[ConjectureResult]:
-- 
2.43.0


From 5450a6c8caf040a7228378525bf6dca119426192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 27/39] fix: a frozen test case still accepted draws

Drawing a single choice after freeze() added it to the recorded nodes.
---
 hypothesis-python/src/hypothesis/internal/conjecture/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/data.py b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
index 200ea12..49dd95b 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/data.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
@@ -738,6 +738,8 @@ class ConjectureData:
     # `observe` formalizes this. The choice will only be written to the choice
     # sequence if observe is True.
     def _draw(self, choice_type, constraints, *, observe, forced):
+        self.__assert_not_frozen("draw")
+
         # this is somewhat redundant with the length > max_length check at the
         # end of the function, but avoids trying to use a null self.random when
         # drawing past the node of a ConjectureData.for_choices data.
-- 
2.43.0


From 02b5c5e3663e345649f21b6ff973f5eefbc5d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 28/39] fix: a generated Random repeated results for other
 arguments

After restoring its state or seed, randint(100, 200) could return what
randint(0, 5) had given, as only the names of arguments were compared.
---
 .../src/hypothesis/strategies/_internal/random.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..380ed55 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -210,14 +210,16 @@ class ArtificialRandom(HypothesisRandom):
         return result
 
     def _hypothesis_do_random(self, method, kwargs):
-        if method == "choices":
+        if method in ("choices", "sample"):
             key = (method, len(kwargs["population"]), kwargs.get("k"))
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
         else:
-            key = (method, *sorted(kwargs))
+            # The result has to suit the arguments, so it can only be repeated
+            # in this state for the same ones.
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From 9bb4b40e63bca5d5984f1c4d07be883e15d1ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 29/39] fix: a generated Random gave results which Random
 cannot

choices ignored its weights and sample its counts, so elements of weight zero
or beyond their count were returned; bounds in descending order and empty
ranges were internal errors.
---
 .../hypothesis/strategies/_internal/random.py | 65 +++++++++++++++----
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 380ed55..402a251 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -11,6 +11,8 @@
 import abc
 import inspect
 import math
+from bisect import bisect_right
+from itertools import accumulate
 from random import Random
 from typing import Any
 
@@ -21,7 +23,7 @@ from hypothesis.internal.conjecture.data import ConjectureData
 from hypothesis.internal.reflection import define_function_signature
 from hypothesis.reporting import report
 from hypothesis.strategies._internal.core import lists, permutations, sampled_from
-from hypothesis.strategies._internal.numbers import floats, integers
+from hypothesis.strategies._internal.numbers import floats
 from hypothesis.strategies._internal.strategies import SearchStrategy
 
 
@@ -176,6 +178,17 @@ def normalize_zero(f: float) -> float:
         return f
 
 
+def possible_choices(population, weights=None, *, cum_weights=None, k=1):
+    """Returns the indices which Random.choices could select."""
+    if weights is None and cum_weights is None:
+        return range(len(population))
+    # Check the weights as Random does, without choosing anything.
+    Random(0).choices(population, weights, cum_weights=cum_weights, k=0)
+    if weights is None:
+        weights = [b - a for a, b in zip([0, *cum_weights], cum_weights)]
+    return tuple(i for i, w in enumerate(weights) if w > 0)
+
+
 class ArtificialRandom(HypothesisRandom):
     VERSION = 10**6
 
@@ -210,8 +223,17 @@ class ArtificialRandom(HypothesisRandom):
         return result
 
     def _hypothesis_do_random(self, method, kwargs):
-        if method in ("choices", "sample"):
-            key = (method, len(kwargs["population"]), kwargs.get("k"))
+        if method == "choices":
+            permitted = possible_choices(**kwargs)
+            key = (method, permitted, kwargs["k"])
+        elif method == "sample":
+            counts = kwargs.get("counts")
+            key = (
+                method,
+                len(kwargs["population"]),
+                kwargs["k"],
+                None if counts is None else tuple(counts),
+            )
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
@@ -239,7 +261,7 @@ class ArtificialRandom(HypothesisRandom):
         elif method == "uniform":
             a = normalize_zero(kwargs["a"])
             b = normalize_zero(kwargs["b"])
-            result = self.__data.draw(floats(a, b))
+            result = self.__data.draw(floats(min(a, b), max(a, b)))
         elif method in ("weibullvariate", "gammavariate"):
             result = self.__data.draw(floats(min_value=0.0, allow_infinity=False))
         elif method in ("gauss", "normalvariate"):
@@ -258,7 +280,9 @@ class ArtificialRandom(HypothesisRandom):
                 stop = kwargs["stop"]
 
             step = kwargs["step"]
-            if start == stop:
+            if step == 0:
+                raise ValueError("zero step for randrange()")
+            if (start >= stop) if step > 0 else (start <= stop):
                 raise ValueError(f"empty range for randrange({start}, {stop}, {step})")
 
             if step != 1:
@@ -271,29 +295,38 @@ class ArtificialRandom(HypothesisRandom):
             else:
                 result = self.__data.draw_integer(start, stop - 1)
         elif method == "randint":
+            if kwargs["a"] > kwargs["b"]:
+                raise ValueError("empty range for randint")
             result = self.__data.draw_integer(kwargs["a"], kwargs["b"])
         # New in Python 3.12, so not taken by our coverage job
         elif method == "binomialvariate":  # pragma: no cover
             result = self.__data.draw_integer(0, kwargs["n"])
         elif method == "choice":
             seq = kwargs["seq"]
+            if len(seq) == 0:
+                raise IndexError("Cannot choose from an empty sequence")
             result = self.__data.draw_integer(0, len(seq) - 1)
         elif method == "choices":
             k = kwargs["k"]
             result = self.__data.draw(
-                lists(
-                    integers(0, len(kwargs["population"]) - 1),
-                    min_size=k,
-                    max_size=k,
-                )
+                lists(sampled_from(permitted), min_size=k, max_size=k)
             )
         elif method == "sample":
             k = kwargs["k"]
-            seq = kwargs["population"]
+            # With counts, we sample from that many copies of each element.
+            if counts is None:
+                total = len(kwargs["population"])
+            else:
+                cum_counts = list(accumulate(counts))
+                if len(cum_counts) != len(kwargs["population"]):
+                    raise ValueError(
+                        "The number of counts does not match the population"
+                    )
+                total = cum_counts[-1] if cum_counts else 0
 
-            if k > len(seq) or k < 0:
+            if k > total or k < 0:
                 raise ValueError(
-                    f"Sample size {k} not in expected range 0 <= k <= {len(seq)}"
+                    f"Sample size {k} not in expected range 0 <= k <= {total}"
                 )
 
             if k == 0:
@@ -301,12 +334,14 @@ class ArtificialRandom(HypothesisRandom):
             else:
                 result = self.__data.draw(
                     lists(
-                        sampled_from(range(len(seq))),
+                        sampled_from(range(total)),
                         min_size=k,
                         max_size=k,
                         unique=True,
                     )
                 )
+                if counts is not None:
+                    result = [bisect_right(cum_counts, i) for i in result]
 
         elif method == "getrandbits":
             result = self.__data.draw_integer(0, 2 ** kwargs["n"] - 1)
@@ -314,6 +349,8 @@ class ArtificialRandom(HypothesisRandom):
             low = normalize_zero(kwargs["low"])
             high = normalize_zero(kwargs["high"])
             mode = normalize_zero(kwargs["mode"])
+            if low > high:
+                low, high = high, low
             if mode is None:
                 result = self.__data.draw(floats(low, high))
             elif self.__data.draw_boolean(0.5):
-- 
2.43.0


From 4e1fb1523c3a77b31268383fb2dfd7e80998b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 30/39] fix: all_matching_regions missed the empty match at the
 end of the string

---
 .../src/hypothesis/internal/conjecture/dfa/__init__.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py b/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
index 1b9d033..cc7428a 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
@@ -95,7 +95,7 @@ class DFA:
 
         # Stack format: (k, state, indices). After reading ``k`` characters
         # starting from any i in ``indices`` the DFA would be at ``state``.
-        stack = [(0, self.start, range(len(string)))]
+        stack = [(0, self.start, range(len(string) + 1))]
 
         results = []
 
-- 
2.43.0


From 5a5492802d8721de229af8e120080b37ba96eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 31/39] fix: the strings of an automaton with unsorted
 transitions were enumerated out of order

---
 .../src/hypothesis/internal/conjecture/dfa/__init__.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py b/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
index cc7428a..f52a7f7 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/dfa/__init__.py
@@ -665,7 +665,7 @@ class ConcreteDFA(DFA):
         if isinstance(transitions, dict):
             yield from sorted(transitions.items())
         else:
-            for t in transitions:
+            for t in sorted(transitions):
                 if len(t) == 2:
                     yield t
                 else:
-- 
2.43.0


From 571b52b7bf4ea5b42f45b9d722b78895bab91221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 32/39] fix: arrays of datetimes without a unit ignored the
 options for their elements

---
 hypothesis-python/src/hypothesis/extra/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/extra/numpy.py b/hypothesis-python/src/hypothesis/extra/numpy.py
index 1ab322a..d57cdb6 100644
--- a/hypothesis-python/src/hypothesis/extra/numpy.py
+++ b/hypothesis-python/src/hypothesis/extra/numpy.py
@@ -542,7 +542,11 @@ def arrays(
             return (
                 st.sampled_from(TIME_RESOLUTIONS)
                 .map((dtype.str + "[{}]").format)
-                .flatmap(lambda d: arrays(d, shape=shape, fill=fill, unique=unique))
+                .flatmap(
+                    lambda d: arrays(
+                        d, shape=shape, elements=elements, fill=fill, unique=unique
+                    )
+                )
             )
         elements = from_dtype(dtype, **(elements or {}))
     check_strategy(elements, "elements")
-- 
2.43.0


From 4922e866715697e3c29dcfc7ce6cda9038ac2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 33/39] fix: character sets with non-ASCII characters failed
 under the ASCII flag
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only categories such as \w depend on the flag: [é] matches é with it too.
---
 .../src/hypothesis/strategies/_internal/regex.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 9dca051..ce1047d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -134,10 +134,7 @@ class CharactersBuilder:
         self._ignorecase = flags & re.IGNORECASE
         self.code_to_char = chr
         self._alphabet = unwrap_strategies(alphabet)
-        if flags & re.ASCII:
-            self._alphabet = OneCharStringStrategy(
-                self._alphabet.intervals & charmap.query(max_codepoint=127)
-            )
+        self._ascii = flags & re.ASCII
 
     @property
     def strategy(self):
@@ -154,8 +151,15 @@ class CharactersBuilder:
         if self._negate:
             intervals = charmap.query() - intervals
             multi_chars.clear()
+        if self._ascii and self._categories:
+            # The ASCII flag limits categories, but not characters which are listed
+            intervals &= charmap.query(
+                max_codepoint=127,
+                include_characters=() if self._negate else white_chars - multi_chars,
+            )
         # and finally return the intersection with our alphabet
-        return OneCharStringStrategy(intervals & self._alphabet.intervals) | (
+        intervals &= self._alphabet.intervals
+        return (OneCharStringStrategy(intervals) if intervals else st.nothing()) | (
             st.sampled_from(sorted(multi_chars)) if multi_chars else st.nothing()
         )
 
@@ -459,7 +463,7 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 elif charset_code == sre.LITERAL:
                     # Regex '[a]' (single char)
                     c = builder.code_to_char(charset_value)
-                    if chars_not_in_alphabet(builder._alphabet, c):
+                    if chars_not_in_alphabet(alphabet, c):
                         raise IncompatibleWithAlphabet(
                             f"Literal {c!r} is not in the specified alphabet"
                         )
-- 
2.43.0


From a435e1035adb41cc33c97d5425e5cbc2c68ba036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 34/39] fix: shared() ignored keys that are false

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..94c4f2e 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self.key if self.key is not None else self
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From 4c8f53959e68df51f9387fbd3dde2781f23a0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 35/39] fix: slices() made empty selections from slices up to
 the end

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index f82c3bb..d1e1657 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -2633,7 +2633,8 @@ def slices(draw: Any, size: int) -> slice:
 
     if draw(booleans()) and start is not None:
         start -= size
-    if draw(booleans()) and stop is not None:
+    # The end of the sequence has no negative index
+    if draw(booleans()) and stop is not None and stop != size:
         stop -= size
     if (not draw(booleans())) and step == 1:
         step = None
-- 
2.43.0


From feb4f0edfb08bf41583f1261d0eb3852af6725c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 36/39] fix: rules did not consume the values of Bundle(...,
 consume=True)

---
 hypothesis-python/src/hypothesis/stateful.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..ec1e9ad 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -482,7 +482,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
+                consume = v.consume
                 v = BundleReferenceStrategy(v.name, consume=consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
@@ -545,6 +545,10 @@ class Bundle(SearchStrategy[Ex]):
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
+    @property
+    def consume(self) -> bool:
+        return self.__reference_strategy.consume
+
     def do_draw(self, data):
         machine = data.draw(self_strategy)
         reference = data.draw(self.__reference_strategy)
-- 
2.43.0


From f601c8bd1a4e50b90b09b68715316b7e7ef45df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 37/39] fix: flatmap failed on consumes(bundle)

---
 hypothesis-python/src/hypothesis/stateful.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index ec1e9ad..fa01339 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -573,7 +573,7 @@ class Bundle(SearchStrategy[Ex]):
 
     def flatmap(self, expand):
         if self.draw_references:
-            return type(self)(
+            return Bundle(
                 self.name,
                 consume=self.__reference_strategy.consume,
                 draw_references=False,
-- 
2.43.0


From ae68403c4b822934c94a502c990064af013a21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 38/39] fix: byte patterns with an empty character set were
 refused

---
 hypothesis-python/src/hypothesis/strategies/_internal/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index ce1047d..541b19e 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -210,7 +210,7 @@ class BytesBuilder(CharactersBuilder):
         allowed = self._whitelist_chars
         if self._negate:
             allowed = BYTES_ALL - allowed
-        return st.sampled_from(sorted(allowed))
+        return st.sampled_from(sorted(allowed)) if allowed else st.nothing()
 
     def add_category(self, category):
         """Update characters state to match sre_parse object ``category``."""
-- 
2.43.0


From 68d9d4bb6e157a1a6d54c602ffca7054664b1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 39/39] fix: reject the test case when a unique sample runs out
 of elements

---
 .../src/hypothesis/strategies/_internal/collections.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index ccd3968..7e783c4 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -335,7 +335,10 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
-        assert self.max_size >= len(result) >= self.min_size
+        if len(result) < self.min_size:
+            # We've tried every element, without finding enough distinct values.
+            data.mark_invalid(f"Aborted test because unable to satisfy {self!r}")
+        assert self.max_size >= len(result)
         return result
 
 
-- 
2.43.0

