From 17c4f93c89278ae54f96bdcda2855835bb6dae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 01/75] fix: set_key on a nested non-dict key must raise, not
 wipe its parent block

---
 src/calliope/attrdict.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 64189af..0aa5faa 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -91,19 +91,14 @@ class AttrDict(dict):
             value = AttrDict(value)
         if "." in key:
             key, remainder = key.split(".", 1)
-            try:
-                self[key].set_key(remainder, value)
-            except KeyError:
+            if self.get(key, None) is None:
+                # If the value does not exist or is None, we (re)place it
                 self[key] = AttrDict()
-                self[key].set_key(remainder, value)
-            except AttributeError:
-                if self[key] is None:  # If the value is None, we replace it
-                    self[key] = AttrDict()
-                    self[key].set_key(remainder, value)
-                # Else there is probably something there, and we don't just
+            elif not isinstance(self[key], AttrDict):
+                # There is something there, and we don't just
                 # want to overwrite so stop and warn the user
-                else:
-                    raise KeyError("Cannot set nested key on non-dict key.")
+                raise KeyError("Cannot set nested key on non-dict key.")
+            self[key].set_key(remainder, value)
         else:
             if key in self and isinstance(value, AttrDict):
                 for k, v in value.items():
-- 
2.43.0


From 76eb95238103ebad56e7e009b03219eaa5ff44c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 02/75] fix: merging dictionaries must not share sub-blocks
 with the merged-in one

---
 src/calliope/attrdict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 0aa5faa..9653120 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -222,8 +222,8 @@ class AttrDict(dict):
         Raises:
             KeyError: `other` has an already defined key and `allow_override == False`
         """
-        if not isinstance(other, AttrDict):
-            other = AttrDict(other)
+        # Always make a new AttrDict so that `self` does not share sub-dicts with `other`
+        other = AttrDict(other)
         self_keys = self.keys_nested()
         other_keys = other.keys_nested()
         if allow_replacement:
-- 
2.43.0


From 743d1a2dcd6620bcc31d37668593d96e5e0983c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 03/75] fix: replacing a block that is not defined yet must
 define it instead of failing

---
 src/calliope/attrdict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 9653120..ce98c21 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -247,5 +247,9 @@ class AttrDict(dict):
                 ):
                     self.set_key(k, other_value)
         for k in wipe_keys:
-            self.del_key(k)
+            try:
+                self.del_key(k)
+            except (KeyError, TypeError):
+                # There is nothing to replace yet
+                pass
             self.set_key(k, other.get_key(k + "." + WIPE_KEY))
-- 
2.43.0


From 4caef9fde49205c0f4bb26f221aaf40d432c04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 04/75] fix: merging a plain value over an existing block
 without override permission must raise

---
 src/calliope/attrdict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index ce98c21..a3c67b6 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -240,6 +240,14 @@ class AttrDict(dict):
                 raise KeyError(f"Key defined twice: {k}")
             else:
                 other_value = other.get_key(k)
+                # Same as above, but `other` would overwrite an entire subdict
+                if (
+                    not allow_override
+                    and self.get_key(k, None)
+                    and isinstance(self.get_key(k), AttrDict)
+                    and not (other_value is None or isinstance(other_value, AttrDict))
+                ):
+                    raise KeyError(f"Key defined twice: {k}")
                 # If other value is None, and would overwrite an entire subdict,
                 # we skip it
                 if not (
-- 
2.43.0


From 0c030993a096fc104cdc9af095f5b4ffc89d9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/75] fix: `calliope run` must pass --save_logs and the
 SPORES path on to the solve configuration

---
 src/calliope/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/cli.py b/src/calliope/cli.py
index 8a72994..8c349a7 100644
--- a/src/calliope/cli.py
+++ b/src/calliope/cli.py
@@ -281,7 +281,7 @@ def run(
             click.secho("Starting model run...")
             kwargs = {}
             if save_logs:
-                kwargs["solve.save_logs"] = save_logs
+                kwargs["save_logs"] = save_logs
 
             if save_csv is None and save_netcdf is None:
                 click.secho(
@@ -297,7 +297,7 @@ def run(
             ):
                 # If save_netcdf is used, override the 'save_per_spore_path' to point to
                 # a directory of the same name as the planned netcdf
-                kwargs["solve.spores.save_per_spore_path"] = (Path(save_netcdf).parent,)
+                kwargs["spores.save_per_spore_path"] = Path(save_netcdf).parent
 
             model.build()
             model.solve(**kwargs)
-- 
2.43.0


From 708775ed4c9227cad46db4ca6b42c5148acc9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 06/75] fix: a string lookup without any data must count as
 absent, its default only filling comparisons

---
 src/calliope/backend/backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index e8ae0a5..d65c5dd 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -583,7 +583,8 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
         for obj_type in ["parameters", "lookups", "dimensions"]:
             for name, config in self.math[obj_type].root.items():
                 attrs: dict = {"obj_type": obj_type}
-                default = config.default if obj_type == "lookups" else np.nan
+                is_bool = obj_type == "lookups" and config.dtype == "bool"
+                default = config.default if is_bool else np.nan
                 data = inputs.get(name, xr.DataArray(default))
                 if obj_type == "dimensions" and name in inputs.dims:
                     new_inputs.coords[name] = data.assign_attrs(**attrs)
-- 
2.43.0


From 1f6bab55036bafc77c0db21d3f2ecd37994b3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 07/75] fix: expression strings must follow standard precedence
 for signs and chained powers

---
 src/calliope/backend/expression_parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index fb6712e..81308a4 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -1105,12 +1105,19 @@ def arithmetic_parser(*args, arithmetic: pp.Forward | None = None) -> pp.Forward
     if arithmetic is None:
         arithmetic = pp.Forward()
 
+    # Standard precedence: `-x**y` is `-(x**y)`, `x**y**z` is `x**(y**z)`, and an exponent can have a sign.
+    # the order of `args` matters if two could capture the same string, e.g. "inf".
+    atom = ~signop + pp.MatchFirst(args) | pp.Suppress("(") + arithmetic + pp.Suppress(
+        ")"
+    )
+    signed = pp.Forward()
+    power = pp.Group(atom + expop + signed).set_parse_action(EvalOperatorOperand)
+    sign = pp.Group(signop + signed).set_parse_action(EvalSignOp)
+    signed <<= sign | power | atom
+
     arithmetic <<= pp.infixNotation(
-        # the order matters if two could capture the same string, e.g. "inf".
-        pp.MatchFirst(args),
+        signed,
         [
-            (signop, 1, pp.opAssoc.RIGHT, EvalSignOp),
-            (expop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
             (multop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
             (signop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
         ],
-- 
2.43.0


From b3f68fa63ba3075712e252e654cddbe0a45e7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 08/75] fix: a dimensionless expression must fill every
 selected element of a global expression

---
 src/calliope/backend/gurobi_backend_model.py | 2 +-
 src/calliope/backend/pyomo_backend_model.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 0d75250..ebc804a 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -108,7 +108,7 @@ class GurobiBackendModel(backend_model.BackendModel):
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
         self._clean_arrays(expression)
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f6430cb..8afcfbd 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -219,7 +219,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
 
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
-- 
2.43.0


From 96cca9315142d6db8667d4da9719cfe938cc09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 09/75] fix: loading a model with a different math selection
 must replace its math, not merge into it

---
 src/calliope/model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 7461d60..5e648ad 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -194,11 +194,9 @@ class Model(ModelStructure):
                 attrs.math.init.model_dump(),
                 validate=self.config.init.pre_validate_math_strings,
             )
-            attrs = attrs.update(
-                {
-                    "runtime.math_priority": math_priority,
-                    "math.build": math.model_dump(),
-                }
+            # The newly built math replaces the previous one (`update` would merge them)
+            attrs = attrs.update({"runtime.math_priority": math_priority}).model_copy(
+                update={"math": attrs.math.model_copy(update={"build": math})}
             )
         if inputs:
             model_data_factory = ModelDataCleaner(
-- 
2.43.0


From 3e028274cf961cb2983e1fe2981119ae119e463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 10/75] fix: a constraint side without a value where the
 constraint applies must raise an error

---
 src/calliope/backend/expression_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index 81308a4..c3e7178 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -370,6 +370,10 @@ class EvalComparisonOp(EvalArrayOrMath):
                 )
         lhs_where = lhs.broadcast_like(where)
         rhs_where = rhs.broadcast_like(where)
+        if ((lhs_where.isnull() | rhs_where.isnull()) & where).any():
+            raise self.error_msg(
+                "Missing a linear expression for some coordinates selected by 'where'. Adapting 'where' might help."
+            )
 
         match self.op:
             case "==":
-- 
2.43.0


From ed34cf0a11a5736b8f8c9820882f4ce5ab5d5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 11/75] fix: the where() helper must take numeric parameters as
 its condition on every backend

---
 src/calliope/backend/helper_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index d1b1366..18ffd3e 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -689,6 +689,10 @@ class Where(ParsingHelperFunction):
                         - expression: sum(where(flow_cap, node_grouping), over=nodes) <= node_group_max
             ```
         """
+        if condition.attrs.get("obj_type", None) == "parameters":
+            # The backend may hold parameters as solver objects, whose truth value is not defined.
+            default = self._attrs.math.parameters[condition.name].default
+            condition = self._attrs.input_data[condition.name].fillna(default)
         return array.where(condition.fillna(False).astype(bool))
 
 
-- 
2.43.0


From 5cf4fc55f783eea7f485438a9fa9c0930cc88667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 12/75] fix: deleting a Gurobi piecewise constraint must remove
 it from the problem

---
 src/calliope/backend/gurobi_backend_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index ebc804a..246eb52 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -292,7 +292,7 @@ class GurobiBackendModel(backend_model.BackendModel):
             component_type (str): Object type
         """
         if key in self._dataset and self._dataset[key].obj_type == component_type:
-            if component_type in ["variables", "constraints"]:
+            if component_type in ["variables", "constraints", "piecewise_constraints"]:
                 self._apply_func(
                     self._del_gurobi_obj,
                     self._dataset[key].notnull(),
-- 
2.43.0


From cf2238540b47e42d76c65646e643f49859c89ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 13/75] fix: switching to an unknown objective must leave the
 active one in place

---
 src/calliope/backend/pyomo_backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 8afcfbd..31ec6fc 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -255,10 +255,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         return xr.DataArray(objective)
 
     def set_objective(self, name: str) -> None:  # noqa: D102, override
+        to_set = self.objectives[name].item()
         self.objectives[self.objective].item().deactivate()
         self.log("objectives", self.objective, "Objective deactivated.", level="info")
 
-        self.objectives[name].item().activate()
+        to_set.activate()
         self.objective = name
         self.config = self.config.update({"objective": name})
 
-- 
2.43.0


From 8e907d20e2297409efe6430c2b95604dc1312015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 14/75] fix: updating a lookup must work on the Pyomo interface

---
 src/calliope/backend/pyomo_backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 31ec6fc..7626cff 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -418,7 +418,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def delete_component(  # noqa: D102, override
         self, key: str, component_type: ALL_COMPONENTS_T
     ) -> None:
-        component_dict = getattr(self._instance, component_type)
+        # Lookups have no counterpart in the pyomo instance
+        component_dict = getattr(self._instance, component_type, {})
         if key in component_dict:
             del component_dict[key]
 
-- 
2.43.0


From 9fec05383dce2b5b04b572f8bc43319d300f1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 15/75] fix: updating an input must work after a component that
 refers to it was deleted

---
 src/calliope/backend/backend_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index d65c5dd..0212cc9 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1458,6 +1458,9 @@ class BackendModel(BackendModelGenerator, Generic[T]):
         """
         references = initial_references.copy()
         for reference in initial_references:
+            if reference not in self._dataset:  # component has since been deleted
+                references.discard(reference)
+                continue
             new_refs = self._dataset[reference].attrs.get("references", {})
             references.update(self._find_all_references(new_refs))
         return references
-- 
2.43.0


From 810bdd8df44b46f3720d8f7299aa047d00e9c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 16/75] fix: Gurobi edits before the first solve must be
 complete, and switching the objective must update the configuration

---
 src/calliope/backend/gurobi_backend_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 246eb52..fd293c2 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -134,6 +134,7 @@ class GurobiBackendModel(backend_model.BackendModel):
         self._instance.setObjective(to_set.item(), sense=sense)
         self._instance.update()
         self.objective = name
+        self.config = self.config.update({"objective": name})
         self.log("objectives", name, "Objective activated.", level="info")
 
     def get_parameter(  # noqa: D102, override
@@ -292,6 +293,8 @@ class GurobiBackendModel(backend_model.BackendModel):
             component_type (str): Object type
         """
         if key in self._dataset and self._dataset[key].obj_type == component_type:
+            # Some objects can only be removed once they have been processed by gurobi
+            self._instance.update()
             if component_type in ["variables", "constraints", "piecewise_constraints"]:
                 self._apply_func(
                     self._del_gurobi_obj,
-- 
2.43.0


From 03776e83628cca974abf061331a57fbd86f0804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 17/75] fix: updating an input that where strings compare by
 value must rebuild the components affected

---
 src/calliope/backend/backend_model.py    | 10 ++++++----
 src/calliope/backend/helper_functions.py |  3 +++
 src/calliope/backend/where_parser.py     |  9 ++++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 0212cc9..d344f99 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1257,6 +1257,10 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             (not dataset_da.shape and new_values.shape)
             or missing_dims_in_orig_vals
             or (dataset_da.isnull() & new_values.notnull()).any()
+            or name in self._dataset.attrs.get("values_in_where", set())
+            or (
+                new_input_da.isin([np.inf, -np.inf]) != input_da.isin([np.inf, -np.inf])
+            ).any()
             or obj_type == "lookups"
             or not mutable
         ):
@@ -1430,8 +1434,7 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 **all_global_expressions,
                 **all_shadow_prices,
                 **all_objectives,
-            },
-            attrs=self._dataset.attrs,
+            }
         ).astype(float)
 
         if postprocess:
@@ -1442,8 +1445,7 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 k: _drop_attrs(v)
                 for k, v in results.data_vars.items()
                 if v.notnull().any()
-            },
-            attrs=self._dataset.attrs,
+            }
         )
         return cleaned_results
 
diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index 18ffd3e..7eb004f 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -692,6 +692,9 @@ class Where(ParsingHelperFunction):
         if condition.attrs.get("obj_type", None) == "parameters":
             # The backend may hold parameters as solver objects, whose truth value is not defined.
             default = self._attrs.math.parameters[condition.name].default
+            self._attrs.backend_data.attrs.setdefault("values_in_where", set()).add(
+                condition.name
+            )
             condition = self._attrs.input_data[condition.name].fillna(default)
         return array.where(condition.fillna(False).astype(bool))
 
diff --git a/src/calliope/backend/where_parser.py b/src/calliope/backend/where_parser.py
index bcf76ab..641f459 100644
--- a/src/calliope/backend/where_parser.py
+++ b/src/calliope/backend/where_parser.py
@@ -186,7 +186,14 @@ class InputArrayParser(expression_parser.EvalArrayOrMath):
         da = self.eval_attrs.input_data.get(self.array_name, xr.DataArray(False))
         if self.eval_attrs.apply_where and da.dtype.kind != "b":
             da = da.notnull() & (da != np.inf) & (da != -np.inf)
-        elif da.isnull().any() and pd.notnull(
+            return da
+        if self.array_name in self.eval_attrs.backend_data:
+            # Components depending on the array values, not just on its existence,
+            # will need rebuilding if the values change.
+            self.eval_attrs.backend_data.attrs.setdefault("values_in_where", set()).add(
+                self.array_name
+            )
+        if da.isnull().any() and pd.notnull(
             default := self.eval_attrs.math.find(self.array_name).default
         ):
             da = da.fillna(default)
-- 
2.43.0


From 394b80e47833335bfcc0818bd345379f5d92734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 18/75] fix: variable bounds must be reported on the Gurobi
 interface, and undefined bounds must leave a variable unbounded

---
 src/calliope/backend/backend_model.py        |  2 +-
 src/calliope/backend/gurobi_backend_model.py | 13 ++++++++-----
 src/calliope/backend/pyomo_backend_model.py  |  5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index d344f99..831268c 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1504,7 +1504,7 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 Defaults to None.
 
         Returns:
-            xr.DataArray: Where unbounded, the array entry will be None, otherwise a float value.
+            xr.DataArray: Bound of each array entry; missing (NaN) if there is neither a value nor a default.
         """
         if isinstance(bound, str):
             self.log(
diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index fd293c2..c0cc42e 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -95,8 +95,9 @@ class GurobiBackendModel(backend_model.BackendModel):
         domain_type: str,
         bounds: math_schema.Bounds,
     ) -> xr.DataArray:
-        lb = self._get_variable_bound(bounds.min, name, references)
-        ub = self._get_variable_bound(bounds.max, name, references)
+        # Undefined bounds leave the variable unbounded
+        lb = self._get_variable_bound(bounds.min, name, references).fillna(-np.inf)
+        ub = self._get_variable_bound(bounds.max, name, references).fillna(np.inf)
         var = self._apply_func(
             self._instance.addVar, where, 1, lb, ub, vtype=domain_type
         )
@@ -184,6 +185,8 @@ class GurobiBackendModel(backend_model.BackendModel):
 
     def get_variable_bounds(self, name: str) -> xr.Dataset:  # noqa: D102, override
         variable = self.get_variable(name, as_backend_objs=True)
+        # Attributes are only available once the variables have been processed by gurobi
+        self._instance.update()
 
         lb, ub = self._apply_func(
             self._from_gurobi_variable_bounds, variable.notnull(), 2, variable
@@ -442,16 +445,16 @@ class GurobiBackendModel(backend_model.BackendModel):
         self._update_gurobi_variable(orig, orig.x, bound="ub")  # type: ignore
 
     @staticmethod
-    def _from_gurobi_variable_bounds(val: gurobipy.Var) -> pd.Series:
+    def _from_gurobi_variable_bounds(val: gurobipy.Var) -> tuple[float, float]:
         """Evaluate Gurobi decision variable object bounds.
 
         Args:
             val (gurobipy.Var): Variable object to be evaluated.
 
         Returns:
-            pd.Series: Array of variable upper and lower bound.
+            tuple[float, float]: Variable lower and upper bound.
         """
-        return pd.Series(data=[val.lb, val.ub], index=["lb", "ub"])
+        return val.lb, val.ub
 
     @staticmethod
     def _from_gurobi_var(val: gurobipy.Var) -> Any:
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 7626cff..23d4da0 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -200,8 +200,9 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         domain_type: object,
         bounds: math_schema.Bounds,
     ) -> xr.DataArray:
-        lb = self._get_variable_bound(bounds.min, name, references)
-        ub = self._get_variable_bound(bounds.max, name, references)
+        # Undefined bounds leave the variable unbounded
+        lb = self._get_variable_bound(bounds.min, name, references).fillna(-np.inf)
+        ub = self._get_variable_bound(bounds.max, name, references).fillna(np.inf)
         var = self._apply_func(
             self._to_pyomo_variable,
             where,
-- 
2.43.0


From 65cbdbb1381f7991259c12e40d202c52f7cdefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 19/75] fix: failed build and solve calls must leave the built
 problem and configuration in place, and an unsolved model read from file is
 not solved

---
 src/calliope/model.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 5e648ad..6286345 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -184,7 +184,11 @@ class Model(ModelStructure):
 
         self._start_window_idx: int = 0
         self._is_built: bool = False
-        self._is_solved: bool = False if results is None else True
+        # A model saved before being solved is read back with an empty results dataset
+        self._is_solved: bool = (
+            len(self.results.data_vars) > 0
+            or attrs.runtime.termination_condition is not None
+        )
         self.config = self.config.update({"init": kwargs})
 
         math_priority = model_math.get_math_priority(self.config.init)
@@ -287,18 +291,19 @@ class Model(ModelStructure):
             comment="Model: backend build starting",
         )
 
-        self.config = self.config.update({"build": kwargs})
+        config = self.config.update({"build": kwargs})
 
-        mode = self.config.init.mode
-        if mode == "operate":
-            backend_input = self._prepare_operate_mode_inputs(self.config.build.operate)
+        if config.init.mode == "operate":
+            backend_input = self._prepare_operate_mode_inputs(config.build.operate)
         else:
             backend_input = self.inputs
 
-        self.backend = backend.get_model_backend(
-            self.config.build, backend_input, self.math.build
+        new_backend = backend.get_model_backend(
+            config.build, backend_input, self.math.build
         )
-        self.backend.add_optimisation_components()
+        new_backend.add_optimisation_components()
+        # Only a complete optimisation problem replaces the existing one
+        self.config, self.backend = config, new_backend
 
         log_time(
             LOGGER,
@@ -345,6 +350,7 @@ class Model(ModelStructure):
                 "the results to be overwritten with a new run."
             )
 
+        previous_config = self.config
         self.config = self.config.update({"solve": kwargs})
 
         self.backend.shadow_prices.track_constraints(self.config.solve.shadow_prices)
@@ -356,12 +362,17 @@ class Model(ModelStructure):
             "solve_start",
             comment=f"Optimisation model | starting model in {mode} mode.",
         )
-        if mode == "operate":
-            results = self._solve_operate(self.config.solve)
-        elif mode == "spores":
-            results = self._solve_spores(self.config.solve)
-        else:
-            results = self.backend._solve(self.config.solve, warmstart=warmstart)
+        try:
+            if mode == "operate":
+                results = self._solve_operate(self.config.solve)
+            elif mode == "spores":
+                results = self._solve_spores(self.config.solve)
+            else:
+                results = self.backend._solve(self.config.solve, warmstart=warmstart)
+        except Exception:
+            # The configuration describes the results that exist, if any.
+            self.config = previous_config
+            raise
 
         log_time(
             LOGGER,
-- 
2.43.0


From 955cf3d6c5148056a152d4ba17332ec0c8b868dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 20/75] fix: operate mode must not keep stale data in windows
 with undefined values, and must cope with a single window and with infeasible
 windows

---
 src/calliope/model.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 6286345..b2cc138 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -535,6 +535,9 @@ class Model(ModelStructure):
         results_list = []
 
         for idx, windowstep in enumerate(self.inputs.windowsteps[1:]):
+            if not iteration_results:
+                # As in base mode, there are no results if the problem has no solution
+                return iteration_results
             self._start_window_idx = idx + 1
             windowstep_as_string = windowstep.dt.strftime("%Y-%m-%d %H:%M:%S").item()
             LOGGER.info(
@@ -558,6 +561,12 @@ class Model(ModelStructure):
                     "Re-building model with shorter time horizon."
                 )
                 self.build(force=True)
+            elif self._operate_inputs_need_rebuild(new_inputs):
+                LOGGER.info(
+                    "Optimisation model | Input data available differs in the next window. "
+                    "Re-building model."
+                )
+                self.build(force=True)
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
@@ -576,9 +585,14 @@ class Model(ModelStructure):
                 )
 
             iteration_results = self.backend._solve(solver_config, warmstart=False)
-            iteration_results.coords["timesteps"] = new_ts
+            if iteration_results:
+                iteration_results.coords["timesteps"] = new_ts
 
-        results_list.append(iteration_results.sel(timesteps=slice(windowstep, None)))
+        if not iteration_results:
+            return iteration_results
+
+        last_window = self.inputs.windowsteps[-1]
+        results_list.append(iteration_results.sel(timesteps=slice(last_window, None)))
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
             set(
@@ -589,6 +603,31 @@ class Model(ModelStructure):
         )
         return results
 
+    def _operate_inputs_need_rebuild(self, new_inputs: xr.Dataset) -> bool:
+        """Check if the data of a new operate mode time slice cannot be applied by updating backend parameters.
+
+        This is the case if data is undefined in different time steps (updates skip undefined values)
+        or if time-dependent data other than parameters differ.
+
+        Args:
+            new_inputs (xr.Dataset): Inputs of the new time slice (with as many time steps as the backend inputs).
+
+        Returns:
+            bool: True if the optimisation problem needs to be built anew.
+        """
+        new_inputs = new_inputs.assign_coords(
+            timesteps=self.backend.inputs.coords["timesteps"]
+        )
+        for name, data in new_inputs.data_vars.items():
+            if "timesteps" not in data.dims or name not in self.backend.inputs:
+                continue
+            old_data = self.backend.inputs[name]
+            if name in self.backend.parameters:
+                old_data, data = old_data.notnull(), data.notnull()
+            if not data.equals(old_data.transpose(*data.dims)):
+                return True
+        return False
+
     def _recalculate_storage_initial(self, results: xr.Dataset) -> xr.DataArray:
         """Calculate the initial level of storage devices for a new operate mode time slice.
 
-- 
2.43.0


From 11ff7e65ba2e4b191294715e230624eac7c05fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 21/75] fix: repeated SPORES runs must not limit the baseline
 by the cost of the previous run

---
 src/calliope/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index b2cc138..77b913e 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -665,6 +665,14 @@ class Model(ModelStructure):
         latest_spore: int = 0
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
+            # The baseline must not be limited by the baseline cost of a previous run
+            self.backend.update_input(
+                "spores_baseline_cost",
+                self.inputs.get(
+                    "spores_baseline_cost",
+                    self.math.build.parameters["spores_baseline_cost"].default,
+                ),
+            )
             self.backend.set_objective(self.config.build.objective)
             baseline_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(baseline_results, spores_config, 0)
-- 
2.43.0


From f7777976259e6f4cd97859486e71631d492222db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 22/75] fix: total curtailment must not fail if there is no
 source available over the whole period

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 9bf2d71..d6ec665 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1340,7 +1340,7 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs]
-    where: base_tech==supply AND source_use_max AND source_cap>0
+    where: base_tech==supply AND source_use_max AND source_cap>0 AND sum(source_use_max, over=timesteps)>0
     default: 0
     equations:
       - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
-- 
2.43.0


From ef1ddad2be92c70b64d967afd2b99f9fcdb1d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 23/75] fix: SPORES continued from existing SPORES must score
 with all previous results

---
 src/calliope/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 77b913e..9da9a5a 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -663,6 +663,8 @@ class Model(ModelStructure):
         spores_config: config_schema.SolveSpores = solver_config.spores
 
         latest_spore: int = 0
+        # Results of a previous run that come before the latest ones, from which this run continues.
+        earlier_results: list[xr.Dataset] = []
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
             # The baseline must not be limited by the baseline cost of a previous run
@@ -682,6 +684,11 @@ class Model(ModelStructure):
                 f"Optimisation model | Restarting SPORES from SPORE {latest_spore} results."
             )
             baseline_results = self.results.sel(spores=latest_spore).drop_vars("spores")
+            earlier_results = [
+                self.results.sel(spores=spore).drop_vars("spores")
+                for spore in self.results.spores.values
+                if spore != latest_spore
+            ]
             self.backend.update_input(
                 "spores_score", baseline_results.spores_score_cumulative
             )
@@ -724,7 +731,7 @@ class Model(ModelStructure):
 
         for spore in spore_range:
             LOGGER.info(f"Optimisation model | Running SPORE {spore}.")
-            self._spores_update_model(results_list, spores_config)
+            self._spores_update_model([*earlier_results, *results_list], spores_config)
 
             iteration_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(iteration_results, spores_config, spore)
-- 
2.43.0


From a1e9c70fc838ae4f3f147a59204bc0ff30864ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 24/75] fix: a failure while saving a SPORE must not leave an
 incomplete file

---
 src/calliope/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 9da9a5a..54b34fc 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -790,6 +790,8 @@ class Model(ModelStructure):
             spores_config.save_per_spore_path.mkdir(parents=True, exist_ok=True)
             LOGGER.info(f"Optimisation model | Saving SPORE {spore} to file.")
             outpath = spores_config.save_per_spore_path / f"spore_{spore}.nc"
+            # Write under a different name first, so that there is never an incomplete `spore_*.nc` file.
+            final_outpath, outpath = outpath, outpath.with_suffix(".nc.part")
 
             io.save_netcdf(results.expand_dims(spores=[spore]), "results", "w", outpath)
             io.save_netcdf(
@@ -799,6 +801,7 @@ class Model(ModelStructure):
                 io.save_netcdf(
                     self.inputs.expand_dims(spores=[spore]), "inputs", "a", outpath
                 )
+            outpath.replace(final_outpath)
 
         else:
             LOGGER.info(
-- 
2.43.0


From 77fa57af19095b9628bbc8a0c6934f616a05cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 25/75] fix: technologies whose SPORES tracking parameter is
 false must not be tracked

---
 src/calliope/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 54b34fc..f9d26c4 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -924,10 +924,10 @@ class Model(ModelStructure):
         }
 
         # Filter for technologies of interest
+        tracker = self.inputs.get(spores_config.tracking_parameter, xr.DataArray(True))
         spores_techs = (
-            self.inputs.get(
-                spores_config.tracking_parameter, xr.DataArray(True)
-            ).notnull()
+            # Explicitly setting the tracking parameter to `False` is the same as not setting it.
+            (tracker.notnull() & (tracker != False))  # noqa: E712
             & self.inputs.definition_matrix
         )
         old_score = self.backend.get_parameter(
-- 
2.43.0


From 115dffa076d637cc16c64690be5aae42f69d983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 26/75] fix: empty lists in model attributes must be read back
 from file as lists

---
 src/calliope/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 9b01d6f..befddd9 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -68,10 +68,10 @@ def _serialise(attrs: dict) -> None:
             Attribute dictionary from an xarray Dataset/DataArray.
             Changes will be made in-place, so be sure to supply a copy of your dictionary if you want access to its original state.
     """
-    # Keep track of single element lists, to listify them again when loading from file.
+    # Keep track of single element (and empty) lists, to listify them again when loading from file.
 
     attrs["serialised_single_element_list"] = [
-        k for k, v in attrs.items() if isinstance(v, list) and len(v) == 1
+        k for k, v in attrs.items() if isinstance(v, list) and len(v) <= 1
     ]
 
     # Convert dict attrs to yaml strings
-- 
2.43.0


From ecf3721e3db519ea3bce8af8ba61fb1b1c6920e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 27/75] fix: boolean arrays must be read back from file as
 booleans

---
 src/calliope/io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index befddd9..960deeb 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -154,9 +154,7 @@ def save_netcdf(
     encoding: dict[str, dict] = {
         k: (
             {"zlib": False, "_FillValue": None}
-            if v.dtype.kind in ["U", "O"]
-            else {"zlib": False, "_FillValue": None, "dtype": "int8"}
-            if v.dtype.kind == "b"
+            if v.dtype.kind in ["U", "O", "b"]
             else {"zlib": True, "complevel": 4}
         )
         for k, v in model_data.data_vars.items()
-- 
2.43.0


From 93dbc293c89f8dbbf5480522f01c9c523fd1763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 28/75] fix: saving to file must not modify the data in memory,
 even if it fails, and attributes of coordinates must be read back

---
 src/calliope/io.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 960deeb..06b1ee4 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -41,7 +41,7 @@ def read_netcdf(
             datasets[group] = xr.Dataset()
             continue
         _deserialise(model_data.attrs)
-        for var in model_data.data_vars.values():
+        for var in model_data.variables.values():
             _deserialise(var.attrs)
         datasets[group] = model_data
     return datasets
@@ -141,14 +141,15 @@ def save_netcdf(
     **kwargs,
 ):
     """Save the model to a netCDF file."""
-    original_model_data_attrs = deepcopy(model_data.attrs)
+    # Attributes are serialised in a copy, to leave the data in memory as it is even if saving fails.
+    to_save = model_data.copy()
+    to_save.attrs = deepcopy(model_data.attrs)
     for key, value in kwargs.items():
-        model_data.attrs[key] = value
+        to_save.attrs[key] = value
 
-    _serialise(model_data.attrs)
-    for var in model_data.data_vars.values():
-        _serialise(var.attrs)
-    for var in model_data.coords.values():
+    _serialise(to_save.attrs)
+    for var in to_save.variables.values():
+        var.attrs = deepcopy(var.attrs)
         _serialise(var.attrs)
 
     encoding: dict[str, dict] = {
@@ -160,22 +161,15 @@ def save_netcdf(
         for k, v in model_data.data_vars.items()
     }
 
-    try:
-        model_data.to_netcdf(
-            path,
-            mode=mode,
-            format="netCDF4",
-            engine="netcdf4",
-            encoding=encoding,
-            group=group_name,
-        )
-        model_data.close()
-    finally:  # Revert model_data.attrs back
-        model_data.attrs = original_model_data_attrs
-        for var in model_data.data_vars.values():
-            _deserialise(var.attrs)
-        for var in model_data.coords.values():
-            _deserialise(var.attrs)
+    to_save.to_netcdf(
+        path,
+        mode=mode,
+        format="netCDF4",
+        engine="netcdf4",
+        encoding=encoding,
+        group=group_name,
+    )
+    model_data.close()
 
 
 def save_csv(
-- 
2.43.0


From bc869f5d02467b9dd14c4c2a6dbc5f12e81ed31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 29/75] fix: missing values of string arrays must be read back
 from file as missing

---
 src/calliope/io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 06b1ee4..1d065f8 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -40,6 +40,11 @@ def read_netcdf(
         except OSError:
             datasets[group] = xr.Dataset()
             continue
+        for name in list(model_data.variables):
+            var = model_data[name]
+            # NetCDF has no missing value for strings, they are stored as empty strings
+            if var.attrs.pop("serialised_missing", False) and var.dtype.kind in "OU":
+                model_data[name] = var.where(var != "")
         _deserialise(model_data.attrs)
         for var in model_data.variables.values():
             _deserialise(var.attrs)
@@ -151,6 +156,8 @@ def save_netcdf(
     for var in to_save.variables.values():
         var.attrs = deepcopy(var.attrs)
         _serialise(var.attrs)
+        if var.dtype.kind == "O" and pd.isnull(var.values).any():
+            var.attrs["serialised_missing"] = 1
 
     encoding: dict[str, dict] = {
         k: (
-- 
2.43.0


From 631a1f6682fb9c90acc0ea0bcf4605f649f322ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 30/75] fix: CSV data tables with multi-level columns may name
 the row dimensions in their last header row, as documented

---
 src/calliope/preprocess/data_tables.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1f9b161..0380f89 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -231,8 +231,21 @@ class DataTable:
 
         filepath = relative_path(self.model_definition_path, filename)
         df = pd.read_csv(filepath, encoding="utf-8", header=header, index_col=index_col)
+        if (
+            index_col is not None
+            and len(header) > 1
+            and df.columns.names[-1] is not None
+            and df.columns.names[-1] == self._name_in_file(self.index[0])
+        ):
+            # The last header row gives the names of the row dimensions, not the name of the column dimension.
+            df = df.rename_axis(columns=[*df.columns.names[:-1], None])
         return df
 
+    def _name_in_file(self, dim_name: str) -> str:
+        """Get the name a dimension has before applying `rename_dims`."""
+        mapper = self.input.rename_dims or {}
+        return next((k for k, v in mapper.items() if v == dim_name), dim_name)
+
     def _df_to_ds(self, df: pd.DataFrame) -> xr.Dataset:
         """Process loaded pandas dataframes into tidy dataframes and then into xarray datasets.
 
-- 
2.43.0


From ce879b072e65f21e8073e13532502650b13498a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 31/75] fix: data tables with several rows or columns but no
 dimension defined for them must raise, not load the last one silently

---
 src/calliope/preprocess/data_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 0380f89..0820689 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -274,6 +274,10 @@ class DataTable:
         for axis, names in axis_names.items():
             if names is None and len(getattr(df, axis).names) != 1:
                 self._raise_error(f"Expected a single {axis} level in loaded data.")
+            elif names is None and len(getattr(df, axis)) > 1:
+                self._raise_error(
+                    f"Expected a single item along {axis} in loaded data as no dimensions are defined for it."
+                )
             elif names is not None:
                 df = self._rename_axes(df, axis, names)
 
-- 
2.43.0


From 301f11b6462699e3f1163d080221d9cbd7f5fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 32/75] fix: duplicate data table columns must raise an
 informative error

---
 src/calliope/preprocess/data_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 0820689..ca86db2 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -286,6 +286,10 @@ class DataTable:
                 df = df.squeeze(axis=axis)
 
         if isinstance(df, pd.DataFrame):
+            if df.columns.has_duplicates:
+                self._raise_error(
+                    f"Duplicate column items found: {df.columns[df.columns.duplicated()]}"
+                )
             tdf = df.stack(tuple(df.columns.names), future_stack=True).dropna()
         else:
             tdf = df
-- 
2.43.0


From 222c73cb899b417aaba38c328e989146123628a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 33/75] fix: loading a data table must not modify the data
 frame given by the user

---
 src/calliope/preprocess/data_tables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index ca86db2..36d2ee8 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -342,11 +342,10 @@ class DataTable:
             self._raise_error(f"Expected {len(names)} {axis} levels in loaded data.")
         mapper = self.input.rename_dims
         if mapper:
-            df.rename_axis(inplace=True, **{axis: mapper})
+            df = df.rename_axis(**{axis: mapper})
         self._compare_axis_names(getattr(df, axis).names, names, axis)
-        df.rename_axis(inplace=True, **{axis: names})
 
-        return df
+        return df.rename_axis(**{axis: names})
 
     def _check_for_protected_params(self, tdf: pd.Series):
         """Raise an error if any defined inputs are in a pre-configured set of _protected_ inputs.
-- 
2.43.0


From 48f30cca5d1a596a3f89a8bef0ef2d8b0151479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 34/75] fix: data table options that refer to unknown
 dimensions or items must raise an informative error

---
 src/calliope/preprocess/data_tables.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 36d2ee8..fd5fcee 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -295,6 +295,7 @@ class DataTable:
             tdf = df
 
         if self.input.select is not None:
+            self._check_select(tdf)
             selector = tuple(
                 (
                     listify(self.input.select[name])
@@ -306,6 +307,7 @@ class DataTable:
             tdf = tdf.loc[selector]
 
         if self.input.drop is not None:
+            self._check_dims_exist("drop", listify(self.input.drop), tdf)
             tdf = tdf.droplevel(self.input.drop)
 
         if self.input.add_dims is not None:
@@ -364,6 +366,26 @@ class DataTable:
                 errors=list(extra_info), during=f"data table loading ({self.name})"
             )
 
+    def _check_dims_exist(self, option: str, dims: list[str], tdf: pd.Series):
+        """Raise an error if any dimensions are not in the loaded data."""
+        missing_dims = [i for i in dims if i not in tdf.index.names]
+        if missing_dims:
+            self._raise_error(
+                f"Cannot `{option}` dimensions that are not in the loaded data: {missing_dims}"
+            )
+
+    def _check_select(self, tdf: pd.Series):
+        """Raise an error if any selected dimensions or their items are not in the loaded data."""
+        self._check_dims_exist("select", list(self.input.select), tdf)
+        for name, items in self.input.select.items():
+            missing_items = set(listify(items)).difference(
+                tdf.index.get_level_values(name)
+            )
+            if missing_items:
+                self._raise_error(
+                    f"Cannot `select` items that are not in the `{name}` dimension of the loaded data: {sorted(missing_items, key=str)}"
+                )
+
     def _check_processed_tdf(self, tdf: pd.Series):
         if "inputs" not in tdf.index.names:
             self._raise_error(
-- 
2.43.0


From e96c915b38760ab6bdccb6e57048c09fa371c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 35/75] fix: later data tables must override the technology
 definitions of earlier ones, and link ends given in tables are not inputs

---
 src/calliope/preprocess/model_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 813ec5d..a6985e4 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -165,7 +165,10 @@ class ModelDataBuilder(ModelDTypeUpdater):
                 self.model_definition.get("techs", AttrDict()), allow_override=True
             )
             self.model_definition["techs"] = tech_dict
-            self.tech_data_from_tables.union(base_tech_data)
+            self.tech_data_from_tables.union(base_tech_data, allow_override=True)
+            # As in YAML, these are only used to assign links to nodes
+            for link_param in ["link_from", "link_to"]:
+                data_table.drop(link_param)
 
         techs_incl_inheritance = self._inherit_defs("techs")
         for data_table in data_tables:
@@ -178,7 +181,7 @@ class ModelDataBuilder(ModelDTypeUpdater):
                 lookup_dim = param_config.pivot_values_to_dim
                 if lookup_dim is not None:
                     lookup_dict = data_table.lookup_dict_from_param(param, lookup_dim)
-                    self.tech_data_from_tables.union(lookup_dict)
+                    self.tech_data_from_tables.union(lookup_dict, allow_override=True)
                     data_table.drop(param)
         # Pre-populate the dataset with model nodes and techs
         self.dataset = self.dataset.assign_coords(
-- 
2.43.0


From f5b0ded131fba03b8427e3865c3d60efb1219735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 36/75] fix: technologies switched off must not fail on what
 nodes or data tables say about them

---
 src/calliope/preprocess/data_tables.py |  2 +-
 src/calliope/preprocess/model_data.py  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index fd5fcee..f2a9d29 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -126,7 +126,7 @@ class DataTable:
                 continue
             for tech in techs_this_node:
                 if (
-                    techs_incl_inheritance[tech].get("base_tech", None)
+                    techs_incl_inheritance.get(tech, AttrDict()).get("base_tech", None)
                     == "transmission"
                 ):
                     self._raise_error(
diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index a6985e4..ee3a3f0 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -208,13 +208,21 @@ class ModelDataBuilder(ModelDTypeUpdater):
             techs_this_node = node_data.pop("techs")
             if techs_this_node is None:
                 techs_this_node = AttrDict()
-            node_ref_vars = self._get_relevant_node_refs(techs_this_node, node_name)
-
             techs_this_node_incl_inheritance = self._inherit_defs(
                 "techs", techs_this_node, nodes=node_name
             )
             # FIXME: schema defaults should be used?
             dimension_data_schema.CalliopeNode.model_validate(
+            active_techs_this_node = AttrDict(
+                {
+                    k: v
+                    for k, v in techs_this_node.items()
+                    if k in techs_this_node_incl_inheritance
+                }
+            )
+            node_ref_vars = self._get_relevant_node_refs(
+                active_techs_this_node, node_name
+            )
                 node_data | {"techs": None}
             )
             dimension_data_schema.CalliopeTechs.model_validate(
-- 
2.43.0


From 1de72540d632a81f5eccae1c2f47ff0a9f8e799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 37/75] fix: booleans given as texts or zeros in data tables
 must be read as such

---
 src/calliope/preprocess/data_tables.py | 6 ++++--
 src/calliope/preprocess/model_data.py  | 8 +++++---
 src/calliope/util/__init__.py          | 3 +++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index f2a9d29..9d98bfa 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -14,6 +14,7 @@ from calliope import exceptions
 from calliope.attrdict import AttrDict
 from calliope.io import load_config
 from calliope.schemas.data_table_schema import CalliopeDataTable
+from calliope.util import FALSE_TEXTS
 from calliope.util.tools import listify, relative_path
 
 LOGGER = logging.getLogger(__name__)
@@ -178,9 +179,10 @@ class DataTable:
         """
 
         def __extract_data(grouped_series):
-            index_items = sorted(
-                list(set(grouped_series.dropna(subset=[param])[lookup_dim].values))
+            is_set = grouped_series[param].notnull() & ~grouped_series[param].isin(
+                [False, *FALSE_TEXTS]
             )
+            index_items = sorted(list(set(grouped_series[is_set][lookup_dim].values)))
             if len(index_items) == 1:
                 index_items = index_items[0]
             if index_items:
diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index ee3a3f0..1f563ae 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -24,7 +24,7 @@ from calliope.schemas import (
     math_schema,
     runtime_attrs_schema,
 )
-from calliope.util import DATETIME_DTYPE, DTYPE_OPTIONS
+from calliope.util import DATETIME_DTYPE, DTYPE_OPTIONS, FALSE_TEXTS
 from calliope.util.tools import listify
 
 LOGGER = logging.getLogger(__name__)
@@ -109,6 +109,8 @@ class ModelDTypeUpdater(ABC):
                         .assign_attrs(var_data.attrs)
                     )
                 case "bool":
+                    if var_data.dtype.kind in "OUST":
+                        var_data = var_data.where(~var_data.isin(FALSE_TEXTS), False)
                     updated_var = var_data.fillna(False).astype(dtype)
                 case _:
                     updated_var = var_data.astype(dtype)
@@ -211,8 +213,6 @@ class ModelDataBuilder(ModelDTypeUpdater):
             techs_this_node_incl_inheritance = self._inherit_defs(
                 "techs", techs_this_node, nodes=node_name
             )
-            # FIXME: schema defaults should be used?
-            dimension_data_schema.CalliopeNode.model_validate(
             active_techs_this_node = AttrDict(
                 {
                     k: v
@@ -223,6 +223,8 @@ class ModelDataBuilder(ModelDTypeUpdater):
             node_ref_vars = self._get_relevant_node_refs(
                 active_techs_this_node, node_name
             )
+            # FIXME: schema defaults should be used?
+            dimension_data_schema.CalliopeNode.model_validate(
                 node_data | {"techs": None}
             )
             dimension_data_schema.CalliopeTechs.model_validate(
diff --git a/src/calliope/util/__init__.py b/src/calliope/util/__init__.py
index 5f55590..9fd9f5a 100644
--- a/src/calliope/util/__init__.py
+++ b/src/calliope/util/__init__.py
@@ -13,3 +13,6 @@ DTYPE_OPTIONS = {
 
 DATETIME_DTYPE = "M"
 """Numpy type kind for datetime arrays"""
+
+FALSE_TEXTS = ["False", "FALSE", "false"]
+"""Texts that are read from file as the boolean `False`"""
-- 
2.43.0


From a28e888cf7a8ceeb0de428a1d77bab9e9b6bd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 38/75] fix: one-way links defined in data tables must be
 one-way

---
 src/calliope/preprocess/data_tables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 9d98bfa..68790e3 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -27,7 +27,7 @@ class DataTable:
     """Class for in memory data handling."""
 
     MESSAGE_TEMPLATE = "(data_tables, {name}) | {message}."
-    PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from"]
+    PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from", "one_way"]
 
     def __init__(
         self,
@@ -88,7 +88,10 @@ class DataTable:
         base_tech_data = AttrDict()
         for param in self.PARAMS_TO_INITIALISE_YAML:
             if param in self.dataset:
-                base_tech_dict = self.dataset[param].to_dataframe().dropna().T.to_dict()
+                data = self.dataset[param]
+                if param == "one_way":
+                    data = data.where(~data.isin(FALSE_TEXTS), False)
+                base_tech_dict = data.to_dataframe().dropna().T.to_dict()
                 base_tech_data.union(base_tech_dict)
 
         return tech_dict, base_tech_data
-- 
2.43.0


From 6fdfba84e47341db4a581cd521cd5f1f704ffa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 39/75] fix: one-way links between different carriers must not
 be dropped as hanging when subsetting

---
 src/calliope/preprocess/model_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 1f563ae..81b9a88 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -911,6 +911,7 @@ class ModelDataCleaner(ModelDTypeUpdater):
             subset_dataset.definition_matrix.sel(
                 techs=subset_dataset.base_tech == "transmission"
             )
+            .any("carriers")
             .sum("nodes")
             .where(lambda x: x == 1, drop=True)
             .techs
-- 
2.43.0


From 6cf0c24e352afd3e04b1b576b24e532969ec6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 40/75] fix: datetime inputs given in memory must not fail when
 merged with other inputs

---
 src/calliope/preprocess/model_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 81b9a88..37516cb 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -582,11 +582,15 @@ class ModelDataBuilder(ModelDTypeUpdater):
         to_add_update_dim_dtype = to_add.assign_coords(
             self._update_dtypes(to_add.coords, id_)
         )
-        self.dataset = xr.merge(
+        merged = xr.merge(
             [to_add_update_dim_dtype, self.dataset],
             combine_attrs="no_conflicts",
             compat="override",
-        ).fillna(self.dataset)
+        )
+        in_both = to_add.data_vars.keys() & self.dataset.data_vars.keys()
+        self.dataset = merged.assign(
+            {name: merged[name].fillna(self.dataset[name]) for name in in_both}
+        )
 
     def _log_input_data_updates(self, name: str, input_data_da: xr.DataArray):
         """Logger for model input data updates.
-- 
2.43.0


From b3a386ca7bce5495b2cd3c798d310b088e443a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 41/75] fix: resampling must not add time steps without any
 input

---
 src/calliope/preprocess/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index ddd4d10..330ad9d 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -123,6 +123,10 @@ def resample(
             f"Time Resampling | {var_name} | resampling function used: {resample_method}"
         )
 
+    # Steps that no input step falls into (due to gaps or a finer target resolution) have no data
+    n_steps = xr.ones_like(data_ts[dim], dtype=int).resample({dim: resolution}).sum()
+    data_ts_resampled = data_ts_resampled.sel({dim: n_steps[dim][n_steps > 0]})
+
     data_new = xr.merge([data_non_ts, data_ts_resampled])
 
     return data_new
-- 
2.43.0


From 2f96bdaed74e9c9ff4fd1d98117d884fa6ecd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 42/75] fix: clustering must refuse representative days that
 are not in the series

---
 src/calliope/preprocess/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index 330ad9d..eb2f414 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -145,13 +145,19 @@ def cluster(data: xr.Dataset, clustering_param: str, time_format: str):
             `data` clustered according to contents of `clustering_file`.
 
     """
-    clustering_timeseries = data[clustering_param].to_series()
+    clustering_timeseries = data[clustering_param].to_series().dropna()
     if pd.api.types.is_datetime64_dtype(clustering_timeseries):
         representative_days = clustering_timeseries.dt.date
     else:
         representative_days = _datetime_index(
-            clustering_timeseries.dropna() + " 00:00:00", time_format
+            clustering_timeseries + " 00:00:00", time_format
         ).dt.date
+    missing_days = set(representative_days).difference(data.timesteps.dt.date.values)
+    if missing_days:
+        raise exceptions.ModelError(
+            f"Time Clustering | Representative days given in `{clustering_param}` are "
+            f"not in the timeseries data: {sorted(map(str, missing_days))}"
+        )
 
     grouper = representative_days.to_frame("clusters").groupby("clusters")
     data_new = data.sel(
-- 
2.43.0


From 7bd649455c7e01401d1c0b138d150ae0238cd9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:46 +0000
Subject: [PATCH 43/75] fix: time steps must be in order and keep their
 durations when subsetting and resampling

---
 src/calliope/preprocess/model_data.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 37516cb..7db450b 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -804,6 +804,16 @@ class ModelDataCleaner(ModelDTypeUpdater):
             raise exceptions.ModelError(
                 "Must define at least one timeseries data input in a Calliope model."
             )
+        datetime_dims = [
+            name
+            for name, dim in self.dataset.coords.items()
+            if dim.dtype.kind == DATETIME_DTYPE and name in self.dataset.dims
+        ]
+        self.dataset = self.dataset.sortby(datetime_dims)
+
+        if not self.runtime.instantiated:
+            self.dataset = time.add_inferred_time_params(self.dataset)
+
         runtime_updater = {}
         if self.config.subset != self.runtime.subset:
             self._subset_dims()
@@ -812,9 +822,6 @@ class ModelDataCleaner(ModelDTypeUpdater):
             self._resample_dims()
             runtime_updater["resample"] = self.config.resample.model_dump()
 
-        if not self.runtime.instantiated:
-            self.dataset = time.add_inferred_time_params(self.dataset)
-
         if self.runtime.time_cluster is None and self.config.time_cluster is not None:
             self.dataset = time.cluster(
                 self.dataset, self.config.time_cluster, self.config.datetime_format
-- 
2.43.0


From 605506a9c6f729857d16520c26d832b7413eb8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:46 +0000
Subject: [PATCH 44/75] fix: time subsets must refer to whole periods and not
 be empty

---
 src/calliope/preprocess/time.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index eb2f414..0347c9a 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -212,7 +212,7 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
     """Check if the user-configured time subset is in the correct format and it matches the range of the input data.
 
     We do not allow the time subset to have _no_ overlap with a timeseries index.
-    This overlap is checked based on dates, not any higher resolution.
+    Both ends of the subset refer to the whole of the period that they name (e.g., `2005-01` is all of January 2005).
 
     Args:
         ts_index (pd.Index): Timeseries index to check for overlap.
@@ -227,7 +227,7 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
             f"Timeseries subset must be a list of two timestamps. Received: {time_subset}"
         )
     try:
-        time_subset_dt = pd.to_datetime(time_subset, format="ISO8601")
+        pd.to_datetime(time_subset, format="ISO8601")
     except ValueError as e:
         raise exceptions.ModelError(
             "Timeseries subset must be in ISO format (anything up to the  "
@@ -235,15 +235,10 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
             f"Error caused: {e}"
         )
 
-    df_start_time = ts_index[0]
-    df_end_time = ts_index[-1]
-    if (
-        time_subset_dt[1].date() < df_start_time.date()
-        or time_subset_dt[0].date() > df_end_time.date()
-    ):
+    if ts_index[ts_index.slice_indexer(*time_subset)].empty:
         raise exceptions.ModelError(
             f"subset time range {time_subset} is outside the input data time range "
-            f"[{df_start_time}, {df_end_time}]"
+            f"[{ts_index[0]}, {ts_index[-1]}]"
         )
 
 
-- 
2.43.0


From 79f29e18e8cbfcac3a41b14dacbb41fdcaf1edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 45/75] fix: minimum relative outflow must not force the inflow
 capacity of conversion technologies to zero

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index d6ec665..2a3f35e 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -637,7 +637,7 @@ constraints:
     description: >-
       Set the lower bound of a technology's outflow.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_out_min_relative"
+    where: "carrier_out AND flow_out_min_relative"
     equations:
       - expression: flow_out >= flow_cap * timestep_resolution * flow_out_min_relative
 
-- 
2.43.0


From 302b2bc4ecbe60c73520cb55f6f4486df7a6f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 46/75] fix: total generation must weight all production by the
 timestep weights

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 2a3f35e..31da742 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1278,7 +1278,7 @@ postprocessed:
     default: 0
     where: flow_out AND NOT base_tech==demand
     equations:
-      - expression: sum(flow_out + flow_export * timestep_weights, over=[nodes, timesteps])
+      - expression: sum((flow_out + flow_export) * timestep_weights, over=[nodes, timesteps])
 
   systemwide_levelised_cost:
     title: Systemwide levelised cost of energy (LCOE)
-- 
2.43.0


From cedc6725a69defd1acfb44049146ef6fea73dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 47/75] fix: curtailment must not divide by zero where no area
 or capacity is built

---
 src/calliope/math/base.yaml | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 31da742..0ea1b1e 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1325,7 +1325,9 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs, timesteps]
-    where: base_tech==supply AND source_use_max>0 AND NOT source_use_max==inf AND source_cap>0
+    where: >-
+      base_tech==supply AND source_use_max>0 AND NOT source_use_max==inf AND source_cap>0
+      AND (NOT source_unit==per_area OR area_use>0) AND (NOT source_unit==per_cap OR sum(flow_cap, over=carriers)>0)
     default: 0
     equations:
       - expression: 1 - (source_use / (source_use_max * $source_scaler))
@@ -1340,7 +1342,9 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs]
-    where: base_tech==supply AND source_use_max AND source_cap>0 AND sum(source_use_max, over=timesteps)>0
+    where: >-
+      base_tech==supply AND source_use_max AND source_cap>0 AND sum(source_use_max, over=timesteps)>0
+      AND (NOT source_unit==per_area OR area_use>0) AND (NOT source_unit==per_cap OR sum(flow_cap, over=carriers)>0)
     default: 0
     equations:
       - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
-- 
2.43.0


From 851167d8eb23d46d66d6e8826312a9e931e9946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 48/75] fix: total curtailment must weight use and availability
 of the source alike, over the same timesteps

---
 src/calliope/math/base.yaml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 0ea1b1e..c1c79d0 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1347,7 +1347,11 @@ postprocessed:
       AND (NOT source_unit==per_area OR area_use>0) AND (NOT source_unit==per_cap OR sum(flow_cap, over=carriers)>0)
     default: 0
     equations:
-      - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
+      - expression: >-
+          1 - (
+            sum(source_use * timestep_weights, over=timesteps) /
+            sum(source_use_max * $source_scaler * timestep_weights, over=timesteps)
+          )
     sub_expressions:
       source_scaler: *source_scaler
 
-- 
2.43.0


From 64958d2ac02302fd07b84fac14837884b5e4be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 49/75] fix: clustered models without cyclic storage must not
 require the inter-cluster storage math

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index c1c79d0..643602d 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1423,7 +1423,7 @@ checks:
     errors: warn
 
   cyclic_storage_needs_inter_cluster:
-    where: cyclic_storage AND lookup_cluster_last_timestep
+    where: cyclic_storage==True AND (base_tech==storage OR include_storage==True) AND lookup_cluster_last_timestep
     message: >-
       Include the `storage_inter_cluster_storage` pre-defined math to allow cyclic storage alongside timeseries clustering.
     errors: raise
-- 
2.43.0


From c84e7e489413de4cd6b403314139d2de3eb1bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 50/75] fix: outflow and inflow of dispatched units must be
 limited to their available capacity

---
 src/calliope/math/milp.yaml | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 18a8f38..518be8d 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -226,18 +226,24 @@ constraints:
       Set the upper bound of a technology's ability to produce carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_out AND operating_units AND flow_cap_per_unit"
+    where: "flow_out AND operating_units AND (flow_cap_per_unit OR available_flow_cap)"
     equations:
-      - expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: flow_cap_per_unit
+        expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: available_flow_cap
+        expression: flow_out <= available_flow_cap * timestep_resolution * flow_out_parasitic_eff
 
   flow_in_max_milp:
     description: >-
       Set the upper bound of a technology's ability to consume carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_in AND operating_units AND flow_cap_per_unit"
+    where: "flow_in AND operating_units AND (flow_cap_per_unit OR available_flow_cap)"
     equations:
-      - expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: flow_cap_per_unit
+        expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: available_flow_cap
+        expression: flow_in <= available_flow_cap * timestep_resolution
 
   flow_out_min_milp:
     description: >-
-- 
2.43.0


From 3852d5206bf0a8cfb75eca072a895f815c238e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 51/75] fix: the system-wide minimum number of units must hold
 without a maximum

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 518be8d..9395e6c 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -310,7 +310,7 @@ constraints:
       across all nodes where the technology can exist,
       for any technology using integer units to define its capacity.
     foreach: [techs]
-    where: "purchased_units AND purchased_units_max_systemwide"
+    where: "purchased_units AND purchased_units_min_systemwide"
     equations:
       - expression: sum(purchased_units, over=nodes) >= purchased_units_min_systemwide
 
-- 
2.43.0


From 80c8d33f514e51e027477121ec145bfab91409f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 52/75] fix: purchase costs per distance must count without a
 purchase cost

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 9395e6c..198ba66 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -448,7 +448,7 @@ global_expressions:
     default: 0
     unit: cost
     foreach: [nodes, techs, costs]
-    where: cost_purchase AND purchased_units
+    where: (cost_purchase OR cost_purchase_per_distance) AND purchased_units
     order: -1
     equations:
       - where: base_tech==transmission
-- 
2.43.0


From cd13835bca0a660c5998de91ea21d673ba3b4097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 53/75] fix: initial storage must count once, as a share of the
 storage capacity, in the inter-cluster storage math

---
 src/calliope/math/storage_inter_cluster.yaml | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/calliope/math/storage_inter_cluster.yaml b/src/calliope/math/storage_inter_cluster.yaml
index 1fc91b6..e40ae21 100644
--- a/src/calliope/math/storage_inter_cluster.yaml
+++ b/src/calliope/math/storage_inter_cluster.yaml
@@ -25,15 +25,9 @@ constraints:
   balance_supply_with_storage:
     sub_expressions:
       storage_previous_step: &storage_previous_step
-        - where: timesteps==get_val_at_index(timesteps=0) AND NOT cyclic_storage==True
-          expression: storage_initial * storage_cap
-        - where: >-
-            (
-              (timesteps==get_val_at_index(timesteps=0) AND cyclic_storage==True)
-              OR NOT timesteps==get_val_at_index(timesteps=0)
-            ) AND NOT lookup_cluster_last_timestep
+        - where: NOT lookup_cluster_last_timestep
           expression: (1 - storage_loss) ** roll(timestep_resolution, timesteps=1) * roll(storage, timesteps=1)
-        - where: lookup_cluster_last_timestep AND NOT (timesteps==get_val_at_index(timesteps=0) AND NOT cyclic_storage==True)
+        - where: lookup_cluster_last_timestep
           expression: "0"
 
   balance_storage:
@@ -100,7 +94,7 @@ constraints:
     sub_expressions:
       storage_previous_step:
         - where: datesteps==get_val_at_index(datesteps=0) AND NOT cyclic_storage==True
-          expression: storage_initial
+          expression: storage_initial * storage_cap
         - where: (datesteps==get_val_at_index(datesteps=0) AND cyclic_storage==True) OR NOT datesteps==get_val_at_index(datesteps=0)
           expression: ((1 - storage_loss) ** 24) * roll(storage_inter_cluster, datesteps=1)
       storage_intra:
-- 
2.43.0


From 1828b30edf0fe3e5fcd1c7e0c218ddc6033e742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 54/75] fix: shadow prices of an earlier solve must not be
 reported for a later one

---
 src/calliope/backend/pyomo_backend_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 23d4da0..c561a85 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -347,6 +347,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 "Switching off shadow price tracker as constraint duals cannot be accessed from the CBC solver"
             )
             self.shadow_prices.deactivate()
+        # Shadow prices of a previous solve do not belong to this one
+        self._instance.dual.clear()
         opt = SolverFactory(solve_config.solver, solver_io=solve_config.solver_io)
 
         if solve_config.solver_options:
-- 
2.43.0


From 4639e1c0d3344b5a627815a5769a70f8490be7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 55/75] fix: solving a problem without a solution with GLPK
 must warn, not fail

---
 src/calliope/backend/pyomo_backend_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index c561a85..b12901a 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -377,7 +377,10 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
 
         termination = results.solver[0].termination_condition
 
-        if pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok:
+        # Some solvers (e.g. GLPK) end without an error even if there is no solution
+        has_solution = len(results.solution) > 0
+        status = pe.TerminationCondition.to_solver_status(termination)
+        if status == pe.SolverStatus.ok and has_solution:
             self._instance.load_solution(results.solution[0])
             results = self.load_results(solve_config.postprocessing_active)
         else:
-- 
2.43.0


From 5979d625aa8da8a6f47dd61a3e7b280a781ccb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 56/75] fix: the zero threshold must apply to all results that
 are loaded

---
 src/calliope/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index f9d26c4..486481f 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -383,7 +383,7 @@ class Model(ModelStructure):
         )
 
         # Add additional post-processed result variables to results
-        if results.attrs["termination_condition"] in ["optimal", "feasible"]:
+        if results:
             results = self._apply_zero_threshold(
                 results, self.config.solve.zero_threshold
             )
-- 
2.43.0


From 6d47b3294a5aeaa37a057f3efd73ab263c6066db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 57/75] fix: shadow prices must be available for all windows of
 operate mode

---
 src/calliope/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 486481f..268b7b6 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -526,7 +526,7 @@ class Model(ModelStructure):
         if self._start_window_idx != 0:
             LOGGER.info("Optimisation model | Resetting model to first time window.")
             self._start_window_idx = 0
-            self.build(force=True)
+            self._rebuild_with_shadow_prices(solver_config)
 
         LOGGER.info("Optimisation model | Running first time window.")
 
@@ -560,13 +560,13 @@ class Model(ModelStructure):
                     "Optimisation model | Reaching the end of the timeseries. "
                     "Re-building model with shorter time horizon."
                 )
-                self.build(force=True)
+                self._rebuild_with_shadow_prices(solver_config)
             elif self._operate_inputs_need_rebuild(new_inputs):
                 LOGGER.info(
                     "Optimisation model | Input data available differs in the next window. "
                     "Re-building model."
                 )
-                self.build(force=True)
+                self._rebuild_with_shadow_prices(solver_config)
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
@@ -603,6 +603,15 @@ class Model(ModelStructure):
         )
         return results
 
+    def _rebuild_with_shadow_prices(self, solver_config: config_schema.Solve) -> None:
+        """Build the optimisation problem anew, keeping track of the shadow prices requested.
+
+        Args:
+            solver_config (config_schema.Solve): Calliope Solver configuration object.
+        """
+        self.build(force=True)
+        self.backend.shadow_prices.track_constraints(solver_config.shadow_prices)
+
     def _operate_inputs_need_rebuild(self, new_inputs: xr.Dataset) -> bool:
         """Check if the data of a new operate mode time slice cannot be applied by updating backend parameters.
 
-- 
2.43.0


From 1db2e30972597af89538e12dac27ea7e02512aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 58/75] fix: integer and decimal coordinates of a node can be
 mixed

---
 src/calliope/schemas/dimension_data_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/schemas/dimension_data_schema.py b/src/calliope/schemas/dimension_data_schema.py
index a4e1062..32cef9d 100644
--- a/src/calliope/schemas/dimension_data_schema.py
+++ b/src/calliope/schemas/dimension_data_schema.py
@@ -103,9 +103,9 @@ class CalliopeNode(DimensionData):
     @model_validator(mode="after")
     def check_dependent_definitions(self) -> Self:
         """Ensure dependent settings are defined."""
-        if type(self.latitude) is not type(self.longitude):
+        if (self.latitude is None) is not (self.longitude is None):
             raise ValueError(
-                f"Invalid latitude/longitude definition. Types must match, found ({self.latitude}, {self.longitude})."
+                f"Invalid latitude/longitude definition. Define both or neither, found ({self.latitude}, {self.longitude})."
             )
         return self
 
-- 
2.43.0


From 040d5c4eddca205dec39774a35e0d4457dfc9189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 59/75] fix: technologies with infinite lifetime can have an
 interest rate

---
 src/calliope/math/base.yaml | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 643602d..ff07954 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1203,9 +1203,7 @@ global_expressions:
         - where: NOT cost_depreciation_rate AND (NOT cost_interest_rate OR cost_interest_rate==0)
           expression: 1 / lifetime
         - where: NOT cost_depreciation_rate AND cost_interest_rate>0
-          expression: >-
-            (cost_interest_rate * ((1 + cost_interest_rate) ** lifetime)) /
-            (((1 + cost_interest_rate) ** lifetime) - 1)
+          expression: cost_interest_rate / (1 - (1 + cost_interest_rate) ** (-1 * lifetime))
 
   cost_operation_fixed:
     title: Total fixed operation costs
-- 
2.43.0


From cd3c5f6be35c1037441a9f8685db90ec81982531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 60/75] fix: all-or-nothing coordinates check must catch nodes
 with one coordinate

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index ff07954..037dc22 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1390,7 +1390,7 @@ checks:
     errors: raise
 
   all_or_nothing_lat_lon:
-    where: (any(latitude, over=nodes) or any(longitude, over=nodes)) AND NOT (latitude or longitude)
+    where: (any(latitude, over=nodes) or any(longitude, over=nodes)) AND NOT (latitude and longitude)
     message: "Must define node latitude and longitude for _all_ nodes or _no_ nodes."
     errors: raise
 
-- 
2.43.0


From 5ba465ec65ffa1ece346a7311d6499a90118df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 61/75] fix: storage_initial check must catch values below zero
 and above one in any item

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 037dc22..b47d4a7 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1400,7 +1400,7 @@ checks:
     errors: raise
 
   storage_initial_max:
-    where: storage_initial AND (storage_initial<0 OR storage_initial>1)
+    where: storage_initial<0 OR storage_initial>1
     message: "storage_initial is a fraction, requiring values within the interval [0, 1]."
     errors: raise
 
-- 
2.43.0


From 59f4ff4210124d382bcf429d8048bfd6d849aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 62/75] fix: creating an AttrDict must not modify the given
 lists

---
 src/calliope/attrdict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index a3c67b6..89f824f 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -69,8 +69,9 @@ class AttrDict(dict):
             if isinstance(v, dict):
                 self.set_key(k, AttrDict(v))
             elif isinstance(v, list):
-                # Modifying the list in-place so that if it is a modified
-                # list subclass, e.g. CommentedSeq, it is not killed
+                # Modifying a shallow copy of the list so that the given one is left untouched
+                # and a modified list subclass, e.g. CommentedSeq, is not killed
+                v = copy.copy(v)
                 for i in range(len(v)):
                     if isinstance(v[i], dict):
                         v[i] = AttrDict(v[i])
-- 
2.43.0


From f5e4b0ec5fc5bee0361dd5c364aaeff5d65a8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 63/75] fix: joined termination conditions must have a stable
 order

---
 src/calliope/model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 268b7b6..992355b 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -595,10 +595,12 @@ class Model(ModelStructure):
         results_list.append(iteration_results.sel(timesteps=slice(last_window, None)))
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
-            set(
-                result.attrs["termination_condition"]
-                for result in results_list
-                if "termination_condition" in result.attrs
+            sorted(
+                {
+                    result.attrs["termination_condition"]
+                    for result in results_list
+                    if "termination_condition" in result.attrs
+                }
             )
         )
         return results
@@ -764,10 +766,12 @@ class Model(ModelStructure):
                 combine_attrs="no_conflicts",
             )
         results.attrs["termination_condition"] = ",".join(
-            set(
-                result.attrs["termination_condition"]
-                for result in results_list
-                if "termination_condition" in result.attrs
+            sorted(
+                {
+                    result.attrs["termination_condition"]
+                    for result in results_list
+                    if "termination_condition" in result.attrs
+                }
             )
         )
 
-- 
2.43.0


From 482afd640da9c71ad72d0c6c502225175d0f135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 64/75] fix: overrides of a scenario must be applied in the
 listed order

---
 src/calliope/preprocess/model_definition.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/model_definition.py b/src/calliope/preprocess/model_definition.py
index e168b7f..4226efb 100644
--- a/src/calliope/preprocess/model_definition.py
+++ b/src/calliope/preprocess/model_definition.py
@@ -169,7 +169,8 @@ def _load_overrides_from_scenario(
         scenario_list = listify(scenarios[scenario])
     else:
         scenario_list = scenario.split(",")
-    scenario_overrides = set()
+    # A dictionary, to keep the order in which overrides are listed
+    scenario_overrides: dict[str, None] = {}
     for override in scenario_list:
         if isinstance(override, dict):
             raise exceptions.ModelError(
@@ -177,14 +178,18 @@ def _load_overrides_from_scenario(
             )
         if override in scenarios:
             scenario_overrides.update(
-                _load_overrides_from_scenario(model_def, override, overrides, scenarios)
+                dict.fromkeys(
+                    _load_overrides_from_scenario(
+                        model_def, override, overrides, scenarios
+                    )
+                )
             )
         elif override not in overrides.keys():
             raise exceptions.ModelError(
                 f"(scenarios, {scenario}) | Unrecognised override name: {override}."
             )
         else:
-            scenario_overrides.add(override)
+            scenario_overrides[override] = None
 
     return list(scenario_overrides)
 
-- 
2.43.0


From 51b642652655596c6b3b4dcc47d8127b0f074487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 65/75] fix: double quotes in override_dict must not end the
 argument in run scripts

---
 src/calliope/util/generate_runs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 0169e00..39b1966 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -53,7 +53,9 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
         ).strip()
 
         if override_dict:
-            cmd = f'{cmd} --override_dict="{override_dict}"'
+            # Double quotes within the string must not end the argument
+            quoted_override = override_dict.replace('"', '\\"')
+            cmd = f'{cmd} --override_dict="{quoted_override}"'
 
         if additional_args:
             cmd = f"{cmd} {additional_args}"
-- 
2.43.0


From d5a951c3461d226fb92f6a7967f3615adf65c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 66/75] fix: run scripts must be valid for sh

---
 src/calliope/util/generate_runs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 39b1966..811cea0 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -75,7 +75,7 @@ def generate_bash_script(
     lines_start = [
         "#!/bin/sh",
         "",
-        "function process_case () {",
+        "process_case () {",
         '    case "$1" in',
         "",
     ]
@@ -83,7 +83,7 @@ def generate_bash_script(
         "    esac",
         "}",
         "",
-        "if [[ $# -eq 0 ]] ; then",
+        "if [ $# -eq 0 ] ; then",
         "    echo No parameter given, running all runs sequentially...",
         f"    for i in $(seq 1 {len(commands)}); do process_case $i; done",
         "else",
-- 
2.43.0


From deb0eedb2c22ab6218db42cfc8dadfc424265088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 67/75] fix: cluster scripts must leave out requests which are
 not given

---
 src/calliope/util/generate_runs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 811cea0..70e3e14 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -130,14 +130,15 @@ def generate_bsub_script(
         "#!/bin/sh",
         f"#BSUB -J calliope[1-{len(commands)}]",
         f"#BSUB -n {cluster_threads}",
-        f'#BSUB -R "rusage[mem={cluster_mem}]"',
-        f"#BSUB -W {cluster_time}",
+        f'#BSUB -R "rusage[mem={cluster_mem}]"' if cluster_mem is not None else None,
+        f"#BSUB -W {cluster_time}" if cluster_time is not None else None,
         "#BSUB -r",  # Automatically restart failed jobs
         "#BSUB -o log_%I.log",
         "",
         "./" + bash_out_file_basename + " ${LSB_JOBINDEX}",
         "",
     ]
+    lines = [i for i in lines if i is not None]
 
     with open(out_file, "wb") as f:
         f.write(bytes("\n".join(lines), "UTF-8"))
@@ -173,8 +174,9 @@ def generate_sbatch_script(
         "#SBATCH -J calliope",  # Name of the job
         f"#SBATCH --array=1-{len(commands)}",  # How many jobs there are
         f"#SBATCH --ntasks={cluster_threads}",
-        f"#SBATCH --mem={cluster_mem}",
-        f"#SBATCH --time={cluster_time}",  # How much wallclock time will be required
+        f"#SBATCH --mem={cluster_mem}" if cluster_mem is not None else None,
+        # How much wallclock time will be required
+        f"#SBATCH --time={cluster_time}" if cluster_time is not None else None,
         "#SBATCH -o log_%a.log",
         "",
         "#! Optional add-ins for SBATCH (uncomment and add info as necessary):",
@@ -194,6 +196,7 @@ def generate_sbatch_script(
         "./" + bash_out_file_basename + " ${SLURM_ARRAY_TASK_ID}",
     ]
 
+    lines = [i for i in lines if i is not None]
     with open(out_file, "wb") as f:
         f.write(bytes("\n".join(lines), "UTF-8"))
 
-- 
2.43.0


From a4e7b49a310e70158528c4b6aa70568c7fac185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 68/75] fix: cluster time of a day or more must not wrap around

---
 src/calliope/util/generate_runs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 70e3e14..4ee48e9 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -163,10 +163,11 @@ def generate_sbatch_script(
         bash_out_file, model_file, scenarios, additional_args, override_dict
     )
 
-    if ":" not in cluster_time:
-        # Assuming time given as minutes, so needs changing to %H:%M:%S
-        cluster_time = pd.to_datetime(float(cluster_time), unit="m").strftime(
-            "%H:%M:%S"
+    if cluster_time is not None and ":" not in cluster_time:
+        # Assuming time given as minutes, so needs changing to H:M:S
+        seconds = int(pd.to_timedelta(float(cluster_time), unit="m").total_seconds())
+        cluster_time = (
+            f"{seconds // 3600:02d}:{seconds // 60 % 60:02d}:{seconds % 60:02d}"
         )
 
     lines = [
@@ -195,8 +196,8 @@ def generate_sbatch_script(
         "",
         "./" + bash_out_file_basename + " ${SLURM_ARRAY_TASK_ID}",
     ]
-
     lines = [i for i in lines if i is not None]
+
     with open(out_file, "wb") as f:
         f.write(bytes("\n".join(lines), "UTF-8"))
 
-- 
2.43.0


From 01ba166a52f3799ec537e2d69e3d0d1d8899e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 69/75] fix: Gurobi must be able to save logs to a new
 directory

---
 src/calliope/backend/gurobi_backend_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index c0cc42e..f6d8772 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -230,6 +230,7 @@ class GurobiBackendModel(backend_model.BackendModel):
 
         if solve_config.save_logs is not None:
             logdir = Path(solve_config.save_logs)
+            logdir.mkdir(parents=True, exist_ok=True)
             self._instance.setParam("LogFile", (logdir / "gurobi.log").as_posix())
 
         self._instance.update()
-- 
2.43.0


From 26218092894fbf3cbff296f9810ffb19535424b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 70/75] fix: saving logs must not change the directory of
 temporary files for good

---
 src/calliope/backend/pyomo_backend_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index b12901a..5db5106 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -356,11 +356,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 opt.options[k] = v
 
         solve_kwargs = {}
+        logdir = None
         if solve_config.save_logs is not None:
             solve_kwargs.update({"symbolic_solver_labels": True, "keepfiles": True})
             logdir = Path(solve_config.save_logs)
             logdir.mkdir(parents=True, exist_ok=True)
-            TempfileManager.tempdir = logdir  # Sets log output dir
 
         if warmstart and solve_config.solver in ["glpk", "cbc"]:
             model_warn(
@@ -373,7 +373,14 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             # Ignore most of gurobipy's logging, as it's output is
             # already captured through STDOUT
             logging.getLogger("gurobipy").setLevel(logging.ERROR)
-            results = opt.solve(self._instance, tee=True, **solve_kwargs)
+            # The log output dir is a global setting, to be limited to this solve
+            original_tempdir = TempfileManager.tempdir
+            if logdir is not None:
+                TempfileManager.tempdir = logdir
+            try:
+                results = opt.solve(self._instance, tee=True, **solve_kwargs)
+            finally:
+                TempfileManager.tempdir = original_tempdir
 
         termination = results.solver[0].termination_condition
 
-- 
2.43.0


From d2a68907ec9a8c397a675400b7f46beb66a6dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 71/75] fix: show the index sets and equations of components
 that apply nowhere when documenting all math

---
 src/calliope/backend/backend_model.py       | 14 +++++++++-----
 src/calliope/backend/latex_backend_model.py |  4 ++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 831268c..13eb31a 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -196,7 +196,7 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
                 self._dataset, references, parsed_component
             )
 
-            if top_level_where.any():
+            if self._to_be_built(top_level_where):
                 component_da = self._add_variable(
                     name,
                     top_level_where,
@@ -237,7 +237,7 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
             self._dataset, references, parsed_component
         )
 
-        if top_level_where.any():
+        if self._to_be_built(top_level_where):
             component_da = self._eval_equations(
                 name,
                 parsed_component,
@@ -281,7 +281,7 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
             self._dataset, references, parsed_component
         )
 
-        if top_level_where.any():
+        if self._to_be_built(top_level_where):
             component_da = self._eval_equations(
                 name,
                 parsed_component,
@@ -340,7 +340,7 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
         )
 
         sense = self.OBJECTIVE_SENSE_DICT[definition.sense]
-        if top_level_where.any():
+        if self._to_be_built(top_level_where):
             component_da = self._eval_equations(
                 name,
                 parsed_component,
@@ -390,7 +390,7 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
         top_level_where = self._eval_top_level_where(
             dataset, references, parsed_component
         )
-        if top_level_where.any():
+        if self._to_be_built(top_level_where):
             component_da = self._eval_equations(
                 name,
                 parsed_component,
@@ -420,6 +420,10 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
         )
         return top_level_where
 
+    def _to_be_built(self, top_level_where: xr.DataArray) -> bool:
+        """Whether the equations of a component are to be built."""
+        return bool(top_level_where.any())
+
     def _eval_equations(
         self,
         name: str,
diff --git a/src/calliope/backend/latex_backend_model.py b/src/calliope/backend/latex_backend_model.py
index 0701671..0d01d06 100644
--- a/src/calliope/backend/latex_backend_model.py
+++ b/src/calliope/backend/latex_backend_model.py
@@ -638,6 +638,10 @@ class LatexBackendModel(backend_model.BackendModelGenerator):
         top_level_where.attrs["where_string"] = top_level_where_latex
         return top_level_where
 
+    def _to_be_built(self, top_level_where: xr.DataArray) -> bool:
+        """Equations of components which apply nowhere are included on request."""
+        return self.include == "all" or super()._to_be_built(top_level_where)
+
     def _eval_equations(
         self,
         name: str,
-- 
2.43.0


From 2ca77b188b18bb7544e99abe6ab7512de84f9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 72/75] fix: helper function 'defined' could not be documented
 as part of a where string

---
 src/calliope/backend/helper_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index 7eb004f..fc1b2a5 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -248,8 +248,9 @@ class Defined(ParsingHelperFunction):
         self, *, within: xr.DataArray, how: Literal["all", "any"], **dims
     ) -> str:
         substrings = []
+        within_dim = self._to_str_list(within)[0]
         for name, vals in dims.items():
-            substrings.append(self._latex_substring(how, name, vals, str(within.name)))
+            substrings.append(self._latex_substring(how, name, vals, within_dim))
         if len(substrings) == 1:
             return substrings[0]
         else:
-- 
2.43.0


From d627c4b6a6c8e3567480fd0524b6d3802db02890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 73/75] fix: switched-off piecewise constraints appeared in the
 math documentation

---
 src/calliope/backend/latex_backend_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/backend/latex_backend_model.py b/src/calliope/backend/latex_backend_model.py
index 0d01d06..826d362 100644
--- a/src/calliope/backend/latex_backend_model.py
+++ b/src/calliope/backend/latex_backend_model.py
@@ -387,6 +387,10 @@ class LatexBackendModel(backend_model.BackendModelGenerator):
     def add_piecewise_constraint(  # noqa: D102, override
         self, name: str, definition: math_schema.PiecewiseConstraint
     ) -> None:
+        if not definition.active:
+            self.log("piecewise_constraints", name, "Component deactivated.")
+            return
+
         references: set[str] = set()
         constraint_def_with_breakpoints = definition.update(
             {"foreach": definition.foreach + ["breakpoints"]}
-- 
2.43.0


From a5fa0de4ff1fc461de1eb38c63cdacb5dbca8d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 74/75] fix: a model with a switched-off variable that a where
 string mentions could not be documented

---
 src/calliope/backend/latex_backend_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/backend/latex_backend_model.py b/src/calliope/backend/latex_backend_model.py
index 826d362..60de506 100644
--- a/src/calliope/backend/latex_backend_model.py
+++ b/src/calliope/backend/latex_backend_model.py
@@ -461,7 +461,7 @@ class LatexBackendModel(backend_model.BackendModelGenerator):
         self, name: str, definition: math_schema.Variable
     ) -> None:
         super().add_variable(name, definition)
-        if name not in self.variables:
+        if not definition.active:
             return
         var_da = self.variables[name]
 
-- 
2.43.0


From 7caeb95c091ff6775efcce7e44d25bf08a2d8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:16 +0000
Subject: [PATCH 75/75] fix: refuse an operate horizon shorter than the window

---
 src/calliope/schemas/config_schema.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/calliope/schemas/config_schema.py b/src/calliope/schemas/config_schema.py
index 44bbadc..3e63c65 100644
--- a/src/calliope/schemas/config_schema.py
+++ b/src/calliope/schemas/config_schema.py
@@ -6,7 +6,10 @@ import logging
 from pathlib import Path
 from typing import Literal
 
-from pydantic import Field
+import pandas as pd
+from pandas.tseries.frequencies import to_offset
+from pydantic import Field, model_validator
+from typing_extensions import Self
 
 from calliope.schemas.general import (
     AttrStr,
@@ -144,6 +147,16 @@ class BuildOperate(CalliopeBaseModel):
     Must be ≥ `window`
     """
 
+    @model_validator(mode="after")
+    def _check_horizon_covers_window(self) -> Self:
+        """Time steps between the end of the horizon and the next window would never be optimised."""
+        start = pd.Timestamp("2001-01-01")  # an arbitrary point in time to compare from
+        if start + pd.Timedelta(self.horizon) < start + to_offset(self.window):
+            raise ValueError(
+                f"Operate mode `horizon` ({self.horizon}) must be at least as long as `window` ({self.window})."
+            )
+        return self
+
 
 class Build(CalliopeBaseModel):
     """Base configuration options used when building a Calliope optimisation problem (`calliope.Model.build`)."""
-- 
2.43.0

