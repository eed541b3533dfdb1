From f8d7bf170074227ea0441b1751f87ddcd81be34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:12 +0000
Subject: [PATCH 01/39] fix: raise formula errors on recalculation, so division
 by zero counts as zero

asteval only prints errors unless told to raise them, so formulas which
divide by zero (or use undefined names) silently evaluated to None.
---
 ocelot/transformations/parameterization/recalculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..d754cad 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -36,7 +36,8 @@ class TolerantParameterSet(ParameterSet):
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
                 try:
-                    value = interpreter(self.params[key]['formula'])
+                    value = interpreter(self.params[key]['formula'],
+                                        raise_errors=True)
                 except ZeroDivisionError:
                     # Grumble grumble...
                     value = 0
@@ -67,7 +68,7 @@ def recalculate(dataset):
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
             try:
-                exc['amount'] = interpreter(exc['formula'])
+                exc['amount'] = interpreter(exc['formula'], raise_errors=True)
             except ZeroDivisionError:
                 exc['amount'] = 0
         elif 'variable' in exc:
@@ -90,7 +91,7 @@ def recalculate_all_parameterized_datasets(data):
     for ds in data:
         try:
             recalculate(ds)
-        except (ParameterError, ZeroDivisionError,
+        except (ParameterError, ZeroDivisionError, NameError,
                 TypeError, DuplicateName) as E:
             logger.info({
                 'type': 'table element',
-- 
2.43.0


From b5fe1589f5e7e68d1cd6a927111a9fdaa358d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:12 +0000
Subject: [PATCH 02/39] fix: reject economic allocation when there is no
 revenue to share

Allocation factors were NaN when all prices (or all true values) were zero,
and the NaN values were silently written to all exchanges.
---
 ocelot/transformations/cutoff/economic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocelot/transformations/cutoff/economic.py b/ocelot/transformations/cutoff/economic.py
index e6e5345..05eb9d1 100644
--- a/ocelot/transformations/cutoff/economic.py
+++ b/ocelot/transformations/cutoff/economic.py
@@ -1,10 +1,13 @@
 # -*- coding: utf-8 -*-
+from ...errors import InvalidExchange
 from .utils import apply_allocation_factors
 from .validation import valid_economic_activity
 from ..utils import (
     allocatable_production,
     allocatable_production_as_dataframe,
 )
+from pprint import pformat
+import numpy as np
 
 
 @valid_economic_activity
@@ -49,6 +52,9 @@ def economic_allocation(dataset, use_true_value=True):
         )
         true_value = true_value / true_value.sum() * true_value_revenue_fraction
         factors[mask] = true_value[mask]
+    if not np.isfinite(factors.astype(float)).all():
+        message = "Can't calculate allocation factors (no revenue or true value):\n{}"
+        raise InvalidExchange(message.format(pformat(dataset['filepath'])))
     return apply_allocation_factors(
         dataset,
         zip(factors.tolist(), allocatable_production(dataset))
-- 
2.43.0


From bee86873f3a276e3c55ca7cffe3cdbb672d3c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 03/39] fix: return a list of datasets from constrained market
 allocation

The allocation step iterates over the result, so each constrained market
was replaced by the keys of its dataset dictionary.
---
 ocelot/transformations/cutoff/allocation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..65d23ab 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -16,6 +16,7 @@ from .wastes import (
     recycling_allocation,
     recycling_2_allocation,
 )
+from functools import wraps
 import logging
 
 logger = logging.getLogger('ocelot')
@@ -145,12 +146,18 @@ def choose_allocation_method(dataset):
         return "economic"
 
 
+@wraps(constrained_market_allocation)
+def constrained_market(dataset):
+    # ``TransformationWrapper`` needs a list of datasets
+    return [constrained_market_allocation(dataset)]
+
+
 ALLOCATION_METHODS = (
     ("single product", no_allocation),
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From 769cd3c16d896f0264b9b57af3498b75cc83eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 04/39] fix: rescale mean and total variance of normal
 distributions

Rescaling left the mean and the variance with pedigree uncertainty (the
values used for sampling) unchanged, and failed for an amount of zero.
---
 ocelot/transformations/uncertainty/distributions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index ac37b5c..bfd0526 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -216,11 +216,12 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] = (
-            (obj['amount'] * factor) / obj['amount']
-        ) ** 2 * obj['uncertainty']['variance']
+        for key in ('variance', 'variance with pedigree uncertainty'):
+            if key in obj['uncertainty']:
+                obj['uncertainty'][key] *= factor ** 2
         obj['amount'] *= factor
-        # TODO: Adjust variance with pedigree uncertainty
+        if 'mean' in obj['uncertainty']:
+            obj['uncertainty']['mean'] = obj['amount']
         return Normal.recalculate(obj)
 
     @staticmethod
-- 
2.43.0


From 2234c3e79a2dceb52fd64f085cbd476ab0bb3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 05/39] fix: keep minimum below maximum when flipping an
 undefined distribution

---
 ocelot/transformations/uncertainty/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index bfd0526..2bc1328 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -69,6 +69,10 @@ class Undefined(NoUncertainty):
         obj['amount'] *= factor
         obj['uncertainty']['minimum'] *= factor
         obj['uncertainty']['maximum'] *= factor
+        if factor < 0:
+            obj['uncertainty']['minimum'], obj['uncertainty']['maximum'] = (
+                obj['uncertainty']['maximum'], obj['uncertainty']['minimum']
+            )
         # TODO: Adjust 95% factor?
         return obj
 
-- 
2.43.0


From b2368f7eb4175ee1a3dfde7718cec1f084f3ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 06/39] fix: count division by zero of numpy numbers as zero on
 recalculation

Functions like abs and sqrt return numpy numbers, for which division by
zero gives inf or nan instead of raising ZeroDivisionError.
---
 .../parameterization/recalculation.py         | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index d754cad..7e734fe 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -5,6 +5,7 @@ from asteval import Interpreter
 from bw2parameters import ParameterSet
 from bw2parameters.errors import ParameterError, DuplicateName
 import logging
+import numpy as np
 
 logger = logging.getLogger('ocelot')
 detailed = logging.getLogger('ocelot-detailed')
@@ -25,6 +26,18 @@ def extract_named_parameters(dataset):
             if 'variable' in exc}
 
 
+def evaluate_formula(interpreter, formula):
+    """Evaluate ``formula`` using ``interpreter``.
+
+    Formulas that divide by zero, for both Python and numpy numbers, are evaluated to zero. Other errors are raised."""
+    try:
+        with np.errstate(divide='raise', invalid='raise'):
+            return interpreter(formula, raise_errors=True)
+    except (ZeroDivisionError, FloatingPointError):
+        # Grumble grumble...
+        return 0
+
+
 class TolerantParameterSet(ParameterSet):
     """Subclass of ParameterSet that sets flawed formulas to zero"""
     def evaluate(self):
@@ -35,12 +48,7 @@ class TolerantParameterSet(ParameterSet):
             # if key in self.global_params:
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
-                try:
-                    value = interpreter(self.params[key]['formula'],
-                                        raise_errors=True)
-                except ZeroDivisionError:
-                    # Grumble grumble...
-                    value = 0
+                value = evaluate_formula(interpreter, self.params[key]['formula'])
                 interpreter.symtable[key] = result[key] = value
             elif 'amount' in self.params[key]:
                 interpreter.symtable[key] = result[key] = self.params[key]['amount']
@@ -67,10 +75,7 @@ def recalculate(dataset):
 
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
-            try:
-                exc['amount'] = interpreter(exc['formula'], raise_errors=True)
-            except ZeroDivisionError:
-                exc['amount'] = 0
+            exc['amount'] = evaluate_formula(interpreter, exc['formula'])
         elif 'variable' in exc:
             exc['amount'] = interpreter.symtable[exc['variable']]
         else:
-- 
2.43.0


From 60615489ac7060ecd4678fb79ca52e682c0fe3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 07/39] fix: delete the unlinked exchanges, not those of
 datasets without code

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..b0a90c8 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -242,7 +242,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From af8bbf93799f45c8f49163fbb2f69a72a47d636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:26 +0000
Subject: [PATCH 08/39] fix: leave refinery gas without a market unlinked
 instead of reusing other candidates

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index b0a90c8..ac71b7f 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,7 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 5028e2daaa0e47f4d488adb372ea0267cb46c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 09/39] fix: compare the resolved RoW market when filling
 market groups

---
 ocelot/transformations/locations/market_groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 764b815..516be7f 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -61,7 +61,8 @@ def link_market_group_suppliers(data):
             found, to_add = [], []
 
             for candidate in ordered:
-                if topology.contains(loc, candidate, subtract=found, resolved_row=resolved_supplier_row):
+                child = resolved_supplier_row if candidate == 'RoW' else candidate
+                if topology.contains(loc, child, subtract=found):
                     if candidate in markets:
                         found.append(candidate)
                         to_add.append(markets[candidate])
-- 
2.43.0


From db4bc1de8dea7f65aca9c46127abce67f01ec65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:02 +0000
Subject: [PATCH 10/39] fix: keep zero-volume RoW activities that other
 datasets are linked to

---
 ocelot/transformations/locations/markets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index ac1cedf..786e845 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -404,6 +404,10 @@ assign_fake_pv_to_confidential_datasets.__table__ = {
 def delete_global_with_zero_pv_when_regional_present(data, kind="market activity"):
     """"""
     purge = []
+    # Activities which other datasets depend on can't be deleted
+    used = {exc['code'] for ds in data for exc in ds['exchanges'] if exc.get('code')}
+    used.update(ds['suppliers'][0]['code'] for ds in data
+                if len(ds.get('suppliers', [])) == 1)
     act_filter = lambda x: x['type'] == kind
     grouped = toolz.groupby("reference product", filter(act_filter, data))
     for rp, group in grouped.items():
@@ -412,6 +416,7 @@ def delete_global_with_zero_pv_when_regional_present(data, kind="market activity
         try:
             row = next(ds for ds in group if ds['location'] == 'RoW')
             assert not original_production_volume(row)
+            assert row.get('code') not in used
             purge.append(row)
             logger.info({
                 'type': 'table element',
-- 
2.43.0


From 5a0999addd542f8ff2751934766b06fa91be3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:06 +0000
Subject: [PATCH 11/39] fix: only delete activity links to the targets of
 constrained markets

---
 ocelot/transformations/consequential/constrained_markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e7aba88 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -92,7 +92,7 @@ def delete_activity_links_to_constrained_markets(data):
         exchange_iterator = (
             exc for exc in ds['exchanges']
             if not exc.get('conditional exchange')
-            and exc.get('activity link')
+            and exc.get('activity link') in constrained_activities
         )
         for exc in exchange_iterator:
             del exc['activity link']
-- 
2.43.0


From b8dee158774de477a37c1dc4ac4405a24480445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:02 +0000
Subject: [PATCH 12/39] fix: flip the uncertainty of non-allocatable
 by-products with their amount

---
 ocelot/transformations/cutoff/wastes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocelot/transformations/cutoff/wastes.py b/ocelot/transformations/cutoff/wastes.py
index aaa4bf6..fa3e739 100644
--- a/ocelot/transformations/cutoff/wastes.py
+++ b/ocelot/transformations/cutoff/wastes.py
@@ -196,8 +196,7 @@ def flip_non_allocatable_byproducts(dataset):
             })
             del exc['byproduct classification']
             exc['type'] = 'from technosphere'
-            # TODO: Use rescale_exchange when new uncertainties code is merged
-            exc['amount'] = -1 * exc['amount']
+            scale_exchange(exc, -1)
             if 'formula' in exc:
                 exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return [dataset]
-- 
2.43.0


From f2d0f1ca065c8681a39472bf12c6127451130b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:03 +0000
Subject: [PATCH 13/39] fix: flip the uncertainty of constrained exchanges with
 their amount

---
 ocelot/transformations/consequential/constrained_markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index e7aba88..6a76a21 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -1,12 +1,13 @@
 # -*- coding: utf-8 -*-
 from ... import toolz
+from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
 
 def flip_exchange(exc):
-    """Flip amount and formula of an exchange"""
-    exc['amount'] = -1 * exc['amount']
+    """Flip amount, uncertainty and formula of an exchange"""
+    scale_exchange(exc, -1)
     if 'formula' in exc:
         exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return exc
-- 
2.43.0


From 28ace0fe1229e183c018573968b480bf2a284b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 14/39] fix: keep the pedigree variance of lognormal
 distributions without pedigree matrix

---
 ocelot/transformations/uncertainty/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index 2bc1328..b929f1d 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -152,7 +152,11 @@ class Lognormal(NoUncertainty):
 
     @staticmethod
     def recalculate(obj):
-        """Recalculate uncertainty values based on new pedigree matrix values"""
+        """Recalculate uncertainty values based on new pedigree matrix values.
+
+        Does nothing if pedigree matrix not present."""
+        if 'pedigree matrix' not in obj:
+            return obj
         obj['uncertainty']['variance with pedigree uncertainty'] = (
             obj['uncertainty']['variance'] +
             get_pedigree_variance(obj.get('pedigree matrix', {}))
-- 
2.43.0


From 4008579c04f35275794500794a9d8cbc3a431160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:04 +0000
Subject: [PATCH 15/39] fix: remove a lognormal distribution whose repaired
 variance is zero

---
 ocelot/transformations/uncertainty/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index b929f1d..411c4a2 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -124,6 +124,8 @@ class Lognormal(NoUncertainty):
                 obj['uncertainty']['variance'] +
                 get_pedigree_variance(obj.get('pedigree matrix', {}))
             )
+            if obj['uncertainty']['variance with pedigree uncertainty'] == 0:
+                return remove_exchange_uncertainty(obj)
         elif fix_extremes and obj['uncertainty']['variance'] > math.e:
             # TODO: Log this
             obj['uncertainty']['variance'] = 0.25
-- 
2.43.0


From 55f9bbb5f0fd9f24a2d80548d47f7ab1f627d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 16/39] fix: translate power clauses with any arguments, also
 inside if clauses

---
 .../parameterization/python_compatibility.py  | 76 ++++++++++++++-----
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..9913381 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -37,7 +37,7 @@ IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
-POWER_RE = re.compile("power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)")
+POWER_BEGINNING = re.compile("power\(")
 
 
 def find_if_boundaries(string):
@@ -71,6 +71,8 @@ def find_if_boundaries(string):
 def replace_if_statement(substring):
     """Replace an ``if(a;b;c)`` clause. ``substring`` must contain the if clause exactly."""
     match = COMPLETE_IF.search(substring)
+    if match is None:
+        raise ValueError("Incomplete if clause: {}".format(substring))
     match_string = match.group(0)
     condition, if_true, if_false = match.groups()
     if if_true == if_false:
@@ -90,15 +92,19 @@ def find_replace_nested_if_statements(ds, line):
     while IF_BEGINNING.search(line):
         # Get start indices and length of all if statements
         match_positions = []
-        for match in IF_BEGINNING.finditer(line):
-            start = match.start()
-            _, end = find_if_boundaries(line[start:])
-            match_positions.append((start, end))
-
-        # Sort by smallest length and replace this one
-        match_positions.sort(key=lambda x: (x[1]))
-        start, end = match_positions[0]
-        line = line[:start] + replace_if_statement(line[start:start + end + 1]) + line[start + end + 1:]
+        try:
+            for match in IF_BEGINNING.finditer(line):
+                start = match.start()
+                _, end = find_if_boundaries(line[start:])
+                match_positions.append((start, end))
+
+            # Sort by smallest length and replace this one
+            match_positions.sort(key=lambda x: (x[1]))
+            start, end = match_positions[0]
+            line = line[:start] + replace_if_statement(line[start:start + end + 1]) + line[start + end + 1:]
+        except ValueError:
+            # Can't be parsed, will be deleted by ``delete_unparsable_formulas``
+            return original
     logger.info({
         'type': 'table element',
         'data': (ds['name'], '', original, line)
@@ -116,17 +122,49 @@ def find_if_clause(ds, string):
         return string
 
 
+def split_power_arguments(string):
+    """Split ``a;b`` at the only semicolon which is not inside parentheses.
+
+    Raises ``ValueError`` if there is not exactly one such semicolon."""
+    depth, found = 0, []
+    for index, character in enumerate(string):
+        if character == "(":
+            depth += 1
+        elif character == ")":
+            depth -= 1
+        elif character == ";" and not depth:
+            found.append(index)
+    if len(found) != 1:
+        raise ValueError("Not a power clause: {}".format(string))
+    return string[:found[0]], string[found[0] + 1:]
+
+
+def number_or_expression(string):
+    """Normalize numbers (which can have leading zeros), leave everything else alone"""
+    try:
+        return str(float(string))
+    except ValueError:
+        return string.strip()
+
+
 def find_power_clause(ds, string):
-    while POWER_RE.search(string):
-        match = POWER_RE.search(string)
-        match_string = match.group(0)
-        as_numbers = [float(x) for x in match.groups()]
-        replacement = "(({})**({}))".format(*as_numbers)
+    """Reformat clauses that use ``power(base;exponent)`` syntax.
+
+    Both arguments can be arbitrary formulas. Incomplete clauses are not changed."""
+    original = string
+    while POWER_BEGINNING.search(string):
+        start = POWER_BEGINNING.search(string).start()
+        try:
+            begin, end = find_if_boundaries(string[start:])
+            arguments = split_power_arguments(string[start + begin:start + end])
+        except ValueError:
+            return original
+        replacement = "(({})**({}))".format(*[number_or_expression(x) for x in arguments])
         logger.info({
             'type': 'table element',
-            'data': (ds['name'], '', match_string, replacement)
+            'data': (ds['name'], '', string[start:start + end + 1], replacement)
         })
-        string = string.replace(match_string, replacement)
+        string = string[:start] + replacement + string[start + end + 1:]
     return string
 
 
@@ -143,8 +181,10 @@ def fix_math_formulas(data):
                         'data': (ds['name'], exc['formula'], bad, good)
                     })
                     exc['formula'] = exc['formula'].replace(bad, good)
-            exc['formula'] = find_if_clause(ds, exc['formula'])
+            # Power clauses first, as their semicolon would be
+            # confused with those of an if clause around them
             exc['formula'] = find_power_clause(ds, exc['formula'])
+            exc['formula'] = find_if_clause(ds, exc['formula'])
     return data
 
 fix_math_formulas.__table__ = {
-- 
2.43.0


From fed0a19fbd7bb74094d026ac6abb4693cb2cb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 17/39] fix: replace reserved words in formulas only as whole
 names, and also in parsable formulas

---
 .../parameterization/python_compatibility.py  | 59 ++++++++++---------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 9913381..db7c45e 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,11 +27,13 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
-                     for word in RESERVED_WORDS]
+# These words can be meant as operators in a formula
+OPERATOR_WORDS = {"and", "else", "if", "or"}
 
-RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
+# Only whole names, i.e. not parts of longer names like ``yield_2``,
+# and not if used like a function or in a clause, as in ``(a) if (b) else (c)``.
+RESERVED_WORDS_RE = {word: re.compile("(?<![a-zA-Z0-9_]){}(?![a-zA-Z0-9_]|\\s*\\()".format(word))
+                     for word in RESERVED_WORDS}
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
@@ -231,43 +233,44 @@ def get_ast_names(string):
     return finder.names
 
 
+def uppercase_words(string, words):
+    """Change each name in ``string`` which is one of ``words`` to upper case.
+
+    Only changes whole names, i.e. ``yield`` but not ``yield_management``.
+
+    Returns the new string and a list of the words found."""
+    found = []
+    for word in sorted(words):
+        reg_exp = RESERVED_WORDS_RE[word]
+        if reg_exp.search(string):
+            string = reg_exp.sub(word.upper(), string)
+            found.append(word)
+    return string, found
+
+
 def check_and_fix_formula(ds, string):
     """Check if the formula is usable in ``asteval``.
 
-    First, check to make sure that the formula doesn't start with a reserved word that would be valid python but wouldn't produce meaningful results. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable.
+    First, replace reserved words used as variable names. It is not enough to do this if the formula isn't parsable: for example, ``yield - fair * knight`` is, but yield is treated as a command instead of a variable.
 
-    Next, we check if the formula is parsable. If it isn't, we search for reserved words in the formula, using a regular expression like ``[^a-zA-Z_]?yield[^a-zA-Z_]?``. The regular expression is necessary to avoid find reserved words inside longer variable names like ``yield_management``, which are valid and should be left alone.
+    Words which can also be operators or part of a conditional clause are only replaced if the formula would not be parsable otherwise.
 
-    In either case, if reserved words are found, they are replaced with their uppercase equivalents.
+    Reserved words are replaced with their uppercase equivalents. Reserved words inside longer variable names like ``yield_management`` are valid, and are left alone.
 
     If the formula can't be repaired, it is returned in its original form; otherwise the new formula is returned."""
-    updated = deepcopy(string)
-    for word, reg_exp in RESERVED_WORDS_STARTING:
-        if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
-            logger.info({
-                'type': 'table element',
-                'data': (ds['name'], word, string)
-            })
-
-    try:
-        get_ast_names(updated)
-        return updated
-    except UnparsableFormula:
-        found = []
-        for word, reg_exp in RESERVED_WORDS_RE:
-            if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
-                found.append(word)
+    for words in (RESERVED_WORDS.difference(OPERATOR_WORDS), RESERVED_WORDS):
+        updated, found = uppercase_words(string, words)
         try:
             get_ast_names(updated)
+        except UnparsableFormula:
+            continue
+        if found:
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ";".join(found), string)
             })
-            return updated
-        except UnparsableFormula:
-            return string
+        return updated
+    return string
 
 
 def replace_reserved_words(data):
-- 
2.43.0


From 0ec6185e3031a1a0f4e088a353fc75eb98a1d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 18/39] fix: do not treat statements as usable formulas

---
 ocelot/transformations/parameterization/python_compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index db7c45e..3f76b34 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -227,7 +227,7 @@ def get_ast_names(string):
     """Returns symbol names from an AST node"""
     finder = NameFinder()
     try:
-        finder.generic_visit(ast.parse(string))
+        finder.generic_visit(ast.parse(string, mode="eval"))
     except:
         raise UnparsableFormula
     return finder.names
-- 
2.43.0


From 328c286ac564dc4314ffd76b39c217d5af5044c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 19/39] fix: log self-referential formulas instead of failing

---
 ocelot/transformations/parameterization/recalculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 7e734fe..344c107 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -3,7 +3,7 @@ from ..uncertainty import get_uncertainty_class
 from ..utils import iterate_all_parameters, iterate_all_uncertainties
 from asteval import Interpreter
 from bw2parameters import ParameterSet
-from bw2parameters.errors import ParameterError, DuplicateName
+from bw2parameters.errors import ParameterError, DuplicateName, SelfReference
 import logging
 import numpy as np
 
@@ -97,7 +97,7 @@ def recalculate_all_parameterized_datasets(data):
         try:
             recalculate(ds)
         except (ParameterError, ZeroDivisionError, NameError,
-                TypeError, DuplicateName) as E:
+                TypeError, DuplicateName, SelfReference) as E:
             logger.info({
                 'type': 'table element',
                 'data': (
-- 
2.43.0


From d52da7a4b7e008e36feb9ec003e5519d17d49e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 20/39] fix: never leave a truncated cache file behind

---
 ocelot/filesystem.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..b02323a 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -5,6 +5,7 @@ import hashlib
 import os
 import pickle
 import re
+import tempfile
 import unicodedata
 import uuid
 
@@ -115,9 +116,18 @@ def get_from_cache(data_path):
 
 
 def cache_data(data, data_path):
-    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
-    with open(get_cache_filepath_for_data_path(data_path), "wb") as f:
-        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
+
+    The cache file is only put in place when it is complete, so an interruption can't leave a truncated cache file."""
+    cache_fp = get_cache_filepath_for_data_path(data_path)
+    handle, temp_fp = tempfile.mkstemp(dir=os.path.dirname(cache_fp))
+    try:
+        with open(handle, "wb") as f:
+            pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(temp_fp, cache_fp)
+    finally:
+        if os.path.exists(temp_fp):
+            os.remove(temp_fp)
 
 
 class OutputDir(object):
-- 
2.43.0


From 8c4d4b46383dfb0af5437f0ef1fd8648acf106d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 21/39] fix: detect every change of the source directory when
 using cached data

---
 ocelot/filesystem.py  | 39 +++++++++++++++++++++++++++------------
 ocelot/io/__init__.py | 10 ++++++++--
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index b02323a..4f45398 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -10,7 +10,7 @@ import unicodedata
 import uuid
 
 # Ecospold 2 extractor version. Bump this to invalidate all caches.
-__io_version__ = "8"
+__io_version__ = "9"
 
 re_slugify = re.compile('[^\w\s-]', re.UNICODE)
 
@@ -89,6 +89,21 @@ def get_cache_filepath_for_data_path(data_path):
     )
 
 
+def get_source_state(data_path):
+    """Describe the current state of the files in the source directory ``data_path``.
+
+    The state changes whenever files are added, removed, renamed, replaced or edited, even if their modification times are set to earlier times, as e.g. archive programs do."""
+    state = []
+    for fn in sorted(os.listdir(data_path)):
+        try:
+            stat = os.stat(os.path.join(data_path, fn))
+        except OSError:
+            # Not readable, e.g. broken links used as lock files
+            continue
+        state.append((fn, stat.st_ino, stat.st_size, stat.st_mtime_ns, stat.st_ctime_ns))
+    return state
+
+
 def check_cache_directory(data_path):
     """Check that the data in the cache directory for source directory ``data_path`` is still fresh.
 
@@ -97,32 +112,32 @@ def check_cache_directory(data_path):
     cache_fp = get_cache_filepath_for_data_path(data_path)
     if not os.path.exists(cache_fp):
         return False
-    cache_time = os.stat(cache_fp).st_mtime
-    source_time = max([
-        os.stat(data_path).st_mtime,
-        max(
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
-        )
-    ])
-    return cache_time > source_time
+    with open(cache_fp, "rb") as f:
+        return pickle.load(f) == get_source_state(data_path)
 
 
 def get_from_cache(data_path):
     """Return cached extracted data from directory ``data_path``.
 
     This function only loads the pickled cache data; use ``check_cache_directory`` to make sure cache is not expired."""
-    return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
+    with open(get_cache_filepath_for_data_path(data_path), "rb") as f:
+        pickle.load(f)  # State of the source directory
+        return pickle.load(f)
 
 
-def cache_data(data, data_path):
+def cache_data(data, data_path, state=None):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
 
+    ``state`` is the state of the source directory before the data was extracted, see ``get_source_state``. Use it to notice if the source directory was changed during the extraction.
+
     The cache file is only put in place when it is complete, so an interruption can't leave a truncated cache file."""
+    if state is None and os.path.isdir(data_path):
+        state = get_source_state(data_path)
     cache_fp = get_cache_filepath_for_data_path(data_path)
     handle, temp_fp = tempfile.mkstemp(dir=os.path.dirname(cache_fp))
     try:
         with open(handle, "wb") as f:
+            pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
             pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
         os.replace(temp_fp, cache_fp)
     finally:
diff --git a/ocelot/io/__init__.py b/ocelot/io/__init__.py
index 6515bd4..372af21 100644
--- a/ocelot/io/__init__.py
+++ b/ocelot/io/__init__.py
@@ -8,7 +8,12 @@ __all__ = (
 )
 
 from .extract_ecospold2 import extract_ecospold2_directory
-from ..filesystem import check_cache_directory, get_from_cache, cache_data
+from ..filesystem import (
+    cache_data,
+    check_cache_directory,
+    get_from_cache,
+    get_source_state,
+)
 import os
 
 
@@ -25,8 +30,9 @@ def extract_directory(data_path, use_cache=True, use_mp=True):
         print("Using cached ecospold2 data")
         return get_from_cache(data_path)
     else:
+        state = get_source_state(data_path)
         data = extract_ecospold2_directory(data_path, use_mp)
-        cache_data(data, data_path)
+        cache_data(data, data_path, state)
     return data
 
 from .cleanup import cleanup_data_directory
-- 
2.43.0


From ebe2ba8a9028f55956fd802c2e8d9e14822611d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 22/39] fix: extract empty directories also without
 multiprocessing

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..a5f0e8c 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -243,7 +243,7 @@ def extract_ecospold2_directory(dirpath, use_mp=True):
         print("Extracted {} undefined datasets in {:.1f} seconds".format(len(data), time() - start))
     else:
         data = [generic_extractor(fp)
-                for fp in pyprind.prog_bar(filelist)]
+                for fp in (pyprind.prog_bar(filelist) if filelist else [])]
 
     # Unroll lists of lists
     return [y for x in data for y in x]
-- 
2.43.0


From a1dac5b766f0b9d8570ecff7d810e42a9559a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 23/39] fix: run nested lists of transformation functions

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From 4030e0c6251aca74f1639400892bcabdf2bb1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 24/39] fix: write only the events of a model run to its logs

---
 ocelot/logger.py | 20 ++++++++++++++++++--
 ocelot/model.py  |  7 ++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..1122938 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -40,12 +40,27 @@ class DatasetJsonFormatter(logging.Formatter):
         return json.dumps(message_dict, ensure_ascii=False)
 
 
+class RunLogHandler(logging.FileHandler):
+    """Writes the log of one model run"""
+
+
+def close_logs(*names):
+    """Stop writing to the logs created by ``create_log`` and ``create_detailed_log``"""
+    for name in names or ('ocelot', 'ocelot-detailed'):
+        logger = logging.getLogger(name)
+        for handler in logger.handlers[:]:
+            if isinstance(handler, RunLogHandler):
+                logger.removeHandler(handler)
+                handler.close()
+
+
 def create_log(output_dir):
+    close_logs('ocelot')
     logger = logging.getLogger('ocelot')
     logger.propagate = False
     formatter = JsonFormatter()
     filepath = os.path.join(output_dir, "report.log.json")
-    handler = logging.FileHandler(filepath, encoding='utf-8')
+    handler = RunLogHandler(filepath, encoding='utf-8')
     handler.setFormatter(formatter)
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
@@ -53,11 +68,12 @@ def create_log(output_dir):
 
 
 def create_detailed_log(output_dir):
+    close_logs('ocelot-detailed')
     logger = logging.getLogger('ocelot-detailed')
     logger.propagate = False
     formatter = DatasetJsonFormatter()
     filepath = os.path.join(output_dir, "detailed.log.json")
-    handler = logging.FileHandler(filepath, encoding='utf-8')
+    handler = RunLogHandler(filepath, encoding='utf-8')
     handler.setFormatter(formatter)
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
diff --git a/ocelot/model.py b/ocelot/model.py
index 3aff193..a4d15a4 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -11,7 +11,7 @@ from .filesystem import (
     save_specific_dataset,
 )
 from .io import extract_directory
-from .logger import create_log, create_detailed_log
+from .logger import close_logs, create_log, create_detailed_log
 from .report import HTMLReport
 from .results import SaveStrategy
 from .utils import get_function_meta, validate_configuration
@@ -134,10 +134,15 @@ def system_model(data_path, config=None, show=False, use_cache=True,
         print(("Compare results with: ocelot-compare compare {} "
                "<reference results>").format(output_manager.report_id))
         HTMLReport(logfile_path, show)
+        close_logs()
         return output_manager, data
 
     except KeyboardInterrupt:
+        close_logs()
         print("Terminating Ocelot model run")
         print("Deleting output directory:\n{}".format(output_manager.directory))
         shutil.rmtree(output_manager.directory)
         sys.exit(1)
+    except:
+        close_logs()
+        raise
-- 
2.43.0


From 9a70f0df882487595d01019c998b4c9b5b72e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 25/39] fix: delete the output directory whenever a run is
 interrupted

---
 ocelot/filesystem.py | 5 +++++
 ocelot/model.py      | 8 +++++---
 ocelot/results.py    | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 4f45398..b4a016b 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -5,6 +5,7 @@ import hashlib
 import os
 import pickle
 import re
+import shutil
 import tempfile
 import unicodedata
 import uuid
@@ -158,6 +159,10 @@ class OutputDir(object):
             assert check_dir(self.directory)
             if follow:
                 create_dir(os.path.join(self.directory, "follow"))
+        except KeyboardInterrupt:
+            if os.path.isdir(self.directory):
+                shutil.rmtree(self.directory)
+            raise
         except:
             raise OutputDirectoryError(
                 "Can't find or write to output directory:\n\t{}".format(
diff --git a/ocelot/model.py b/ocelot/model.py
index a4d15a4..30e4e12 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -106,8 +106,9 @@ def system_model(data_path, config=None, show=False, use_cache=True,
         config = cutoff_config
     config = validate_configuration(config)
     data = extract_directory(data_path, use_cache)
-    output_manager = OutputDir(follow=follow)
+    output_manager = None
     try:
+        output_manager = OutputDir(follow=follow)
         counter = itertools.count()
         logfile_path = create_log(output_manager.directory)
         create_detailed_log(output_manager.directory)
@@ -140,8 +141,9 @@ def system_model(data_path, config=None, show=False, use_cache=True,
     except KeyboardInterrupt:
         close_logs()
         print("Terminating Ocelot model run")
-        print("Deleting output directory:\n{}".format(output_manager.directory))
-        shutil.rmtree(output_manager.directory)
+        if output_manager is not None:
+            print("Deleting output directory:\n{}".format(output_manager.directory))
+            shutil.rmtree(output_manager.directory)
         sys.exit(1)
     except:
         close_logs()
diff --git a/ocelot/results.py b/ocelot/results.py
index 21bedf9..36802b5 100644
--- a/ocelot/results.py
+++ b/ocelot/results.py
@@ -42,7 +42,7 @@ class SaveStrategy(object):
         elif ":" not in str(arg):
             try:
                 arg = int(arg)
-            except:
+            except (TypeError, ValueError):
                 raise ValueError("Can't parse {} as integer".format(arg))
             if arg < 1:
                 raise ValueError("Input value must be >= 1")
@@ -50,7 +50,7 @@ class SaveStrategy(object):
         else:
             try:
                 arg = [int(x) for x in arg.split(":")]
-            except:
+            except ValueError:
                 raise ValueError("Can't split and parse integers from {}".format(arg))
             arg[1] += 1  # We are inclusive of top value
             possibles = list(range(*arg))
-- 
2.43.0


From 088540763bfb7d8c3bcbf54abbab9c8c1787e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 26/39] fix: reject steps below one in SaveStrategy, and don't
 expand its range

---
 ocelot/results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocelot/results.py b/ocelot/results.py
index 36802b5..0c52a45 100644
--- a/ocelot/results.py
+++ b/ocelot/results.py
@@ -52,6 +52,8 @@ class SaveStrategy(object):
                 arg = [int(x) for x in arg.split(":")]
             except ValueError:
                 raise ValueError("Can't split and parse integers from {}".format(arg))
+            if len(arg) == 3 and arg[2] < 1:
+                raise ValueError("Step must be >= 1")
             arg[1] += 1  # We are inclusive of top value
-            possibles = list(range(*arg))
+            possibles = range(*arg)
             return lambda x: x in possibles
-- 
2.43.0


From 410183c08cfdfe3dd4f30c72339da93f50c87e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 27/39] fix: skip symbolic links when cleaning up the data
 directory

---
 ocelot/io/cleanup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/cleanup.py b/ocelot/io/cleanup.py
index 460e776..b7ac801 100644
--- a/ocelot/io/cleanup.py
+++ b/ocelot/io/cleanup.py
@@ -12,7 +12,7 @@ def cleanup_data_directory():
     print("\nCleaning up data directory {}".format(base_dir))
     for report in os.listdir(base_dir):
         dirpath = os.path.join(base_dir, report)
-        if not os.path.isdir(dirpath):
+        if not os.path.isdir(dirpath) or os.path.islink(dirpath):
             continue
         created = os.path.getctime(dirpath)
         if created < now - one_week:
-- 
2.43.0


From 20e421cbaae4b9b0c6189764bf96f1cd48d3aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 28/39] fix: single_input accepts an empty list given as
 keyword

---
 ocelot/transformations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/utils.py b/ocelot/transformations/utils.py
index c184820..fdbd1f7 100644
--- a/ocelot/transformations/utils.py
+++ b/ocelot/transformations/utils.py
@@ -322,5 +322,5 @@ def choose_reference_product_exchange(dataset, exchange, allocation_factor=1):
 @wrapt.decorator
 def single_input(wrapped, instance, args, kwargs):
     """Decorator to allow a transformation function to take a single dataset input."""
-    data = kwargs.get('data') or args[0]
+    data = kwargs['data'] if 'data' in kwargs else args[0]
     return [ds for elem in data for ds in wrapped(elem)]
-- 
2.43.0


From 671cde3882f3427a459ddfb239a9b18719710400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:39 +0000
Subject: [PATCH 29/39] fix: escape names and table cells in the report

---
 ocelot/data/report-template.jinja2 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocelot/data/report-template.jinja2 b/ocelot/data/report-template.jinja2
index 2ab5f49..76cde3c 100644
--- a/ocelot/data/report-template.jinja2
+++ b/ocelot/data/report-template.jinja2
@@ -33,7 +33,7 @@
           </ul>
       </nav>
       <h2 class="brand-title" style="margin-top: 1em;">Functions</h2>
-      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name }}</a></p>{% endfor %}
+      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name|e }}</a></p>{% endfor %}
     </div>
   </div>
   <div class="content pure-u-1 pure-u-md-3-4">
@@ -43,7 +43,7 @@
     <div id="countChart"></div>
     <h1>Transform functions</h1>
     {% for func in functions %}
-      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name }} <span class="pure-button toggle-button">toggle</span></h2>
+      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name|e }} <span class="pure-button toggle-button">toggle</span></h2>
       <div id="{{ func.id }}-container">
         <ul>
             <li>Total time: {{ func.time|int }} seconds</li>
@@ -52,19 +52,19 @@
         <h3>Description</h3>
         <p>{{ func.description|safe }}</p>
         {% if func.table %}
-        <h3>{{ func.table.title }}</h3>
+        <h3>{{ func.table.title|e }}</h3>
         <table class="table" data-paging="true" data-filtering="true" data-sorting="true">
             <thead>
                 <tr>
                     {% for col in func.table.columns %}
-                    <th data-breakpoints="xs">{{ col }}</th>
+                    <th data-breakpoints="xs">{{ col|e }}</th>
                     {% endfor %}
                 </tr>
             </thead>
             <tbody>
                 {% for row in func.tabledata %}
                 <tr>
-                    {% for elem in row %}<td>{{ elem }}</td>
+                    {% for elem in row %}<td>{{ elem|e }}</td>
                     {% endfor %}
                 </tr>
                 {% endfor %}
-- 
2.43.0


From 42a41b8326ea7f0d73db8b408cf1905046de4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:18 +0000
Subject: [PATCH 30/39] fix: strip property variable names like all others

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index a5f0e8c..4710595 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -104,7 +104,7 @@ def extract_property(prop):
     if hasattr(prop, "uncertainty"):
         data['uncertainty'] = extract_uncertainty(prop.uncertainty)
     if prop.get("variableName"):
-        data['variable'] = prop.get("variableName")
+        data['variable'] = prop.get("variableName").strip()
     if prop.get("mathematicalRelation"):
         data['formula'] = prop.get("mathematicalRelation").strip()
     return data
-- 
2.43.0


From eb6c6b1943f2af43cec5e63b6d93631d0345ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:46 +0000
Subject: [PATCH 31/39] fix: read datasets around comments and master data in
 dataset files

---
 ocelot/io/extract_ecospold2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index 4710595..15c5773 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -203,9 +203,12 @@ def extract_ecospold2_dataset(elem, filepath):
 def generic_extractor(filepath):
     with open(filepath, encoding='utf8') as f:
         try:
-            root = objectify.parse(f).getroot()
+            # Comments would split the text around them and have no tag name
+            parser = objectify.makeparser(remove_comments=True, remove_pis=True)
+            root = objectify.parse(f, parser).getroot()
             data = [extract_ecospold2_dataset(child, filepath)
-                    for child in root.iterchildren()]
+                    for child in root.iterchildren()
+                    if _(child.tag) in ('activityDataset', 'childActivityDataset')]
         except:
             print(filepath)
             raise
-- 
2.43.0


From 1a5dc27678923141f413c2475e6236d0765b2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 32/39] fix: give market groups their supplier inputs in the
 consequential model

Market groups got a list of suppliers and a production volume, but the
suppliers were deleted without becoming exchanges, so that every market
group ended up without inputs.
---
 ocelot/transformations/consequential/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 7c001fd..b3eae5c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -39,6 +39,7 @@ link_markets_by_technology_level = Collection(
                                       to_type="market group"),
     partial(update_market_production_volumes, kind='market group'),
     allocate_all_market_suppliers,
+    partial(allocate_all_market_suppliers, kind='market group'),
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
-- 
2.43.0


From 9fe9ac933178841287971dd1ed414504c7e1ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 33/39] fix: flip wastes and recyclables before linking, so
 that the inputs they become are linked

---
 ocelot/configuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocelot/configuration.py b/ocelot/configuration.py
index 7e7fd9e..395de69 100644
--- a/ocelot/configuration.py
+++ b/ocelot/configuration.py
@@ -60,10 +60,11 @@ cutoff_config = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    # Wastes and recyclables become inputs here, and inputs must be linked
+    flip_non_allocatable_byproducts,
     link_markets_by_pv,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
@@ -89,10 +90,11 @@ cutoff_config_ecoinvent_row = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    # Wastes and recyclables become inputs here, and inputs must be linked
+    flip_non_allocatable_byproducts,
     link_markets_by_pv_ecoinvent_row,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
-- 
2.43.0


From b5ec85b6e822a483a5f46c08651632eccf101bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:07 +0000
Subject: [PATCH 34/39] fix: report every invalid dataset, also those with the
 same error message

---
 ocelot/io/validate_ecospold2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index 59a96d9..a870559 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -38,16 +38,15 @@ def validate_directory_against_xsd(dirpath, schema):
 
 
 def validate_directory(dirpath):
-    data, errors = extract_directory(dirpath, False), {}
+    data, errors = extract_directory(dirpath, False), []
     print("Validating datasets:")
     for ds in pyprind.prog_bar(data):
         try:
             dataset_schema(ds)
         except Invalid as err:
-            errors[err.msg] = {"path": err.path, "dataset": ds}
+            errors.append((err.msg, err.path, ds))
     if errors:
         logfile = "ocelot-validation-errors.log"
-        errors = [(k, v['path'], v['dataset']) for k, v in errors.items()]
         print("{} errors found.\nSee error logfile {} for details.".format(
             len(errors), logfile)
         )
-- 
2.43.0


From 7f820008b0e1b3bacb055be15f20bf917332b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 35/39] fix: validate directories without datasets instead of
 crashing

---
 ocelot/io/validate_ecospold2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index a870559..de5fc81 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -25,7 +25,7 @@ def validate_directory_against_xsd(dirpath, schema):
     errors = []
     ecospold2_schema = etree.XMLSchema(etree.parse(open(schema)))
 
-    for fp in pyprind.prog_bar(filelist):
+    for fp in (pyprind.prog_bar(filelist) if filelist else []):
         file = etree.parse(open(fp))
         if not ecospold2_schema.validate(file):
             errors.append(os.path.basename(fp))
@@ -40,7 +40,7 @@ def validate_directory_against_xsd(dirpath, schema):
 def validate_directory(dirpath):
     data, errors = extract_directory(dirpath, False), []
     print("Validating datasets:")
-    for ds in pyprind.prog_bar(data):
+    for ds in (pyprind.prog_bar(data) if data else []):
         try:
             dataset_schema(ds)
         except Invalid as err:
-- 
2.43.0


From fbe6f0c99a31e5b624cd586b690245cf11684437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:49 +0000
Subject: [PATCH 36/39] fix: list the usage options for --list instead of
 crashing

---
 ocelot/bin/ocelot_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/bin/ocelot_cli.py b/ocelot/bin/ocelot_cli.py
index 91c8ece..6b652d1 100644
--- a/ocelot/bin/ocelot_cli.py
+++ b/ocelot/bin/ocelot_cli.py
@@ -63,6 +63,8 @@ def main():
             )
         elif args['cleanup']:
             cleanup_data_directory()
+        elif args['-l'] or args['--list']:
+            print(__doc__.strip())
         else:
             raise ValueError
     except KeyboardInterrupt:
-- 
2.43.0


From d8c5b76e18299184b0d922cc837f7e6c85bcf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 37/39] fix: log changes of constrained markets where the
 report looks for them

---
 ocelot/transformations/consequential/constrained_markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index 6a76a21..181258e 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -4,6 +4,8 @@ from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount, uncertainty and formula of an exchange"""
@@ -59,7 +61,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -97,7 +99,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
-- 
2.43.0


From 0c0e81ac7d51f9c11ab029c95b89c4f803614eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 38/39] fix: log technology level changes where the report
 looks for them, with matching columns

---
 ocelot/transformations/consequential/technology_levels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..ffe725d 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
@@ -39,7 +41,7 @@ def switch_undefined_to_current(data):
 
 switch_undefined_to_current.__table__ = {
     'title': 'Switch all `undefined` activity technology levels to `current`',
-    'columns': ["Reference product", "Number of datasets"]
+    'columns': ["Name", "Reference product", "Location"]
 }
 
 
-- 
2.43.0


From 648b3817d5558d2db249e9152fef44d82d0fd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 39/39] fix: give reference products their code in the
 consequential model, as Brightway2 export needs

---
 ocelot/transformations/consequential/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index b3eae5c..28fc04c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -3,6 +3,7 @@ from ...collection import Collection
 from ..identifying import add_unique_codes
 from ..locations import (
     actualize_activity_links,
+    add_reference_product_codes,
     add_suppliers_to_markets,
     allocate_all_market_suppliers,
     assign_fake_pv_to_confidential_datasets,
@@ -43,5 +44,6 @@ link_markets_by_technology_level = Collection(
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
+    add_reference_product_codes,
     log_and_delete_unlinked_exchanges,
 )
-- 
2.43.0

