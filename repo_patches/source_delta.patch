From 9f90704f8469576bbdc03325eb0286c4bbd401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 01/39] fix: find references under a leading sign in math
 expressions

`$sub_expression` and slice references nested in a signed term (e.g. `-$foo`)
were not collected, so that their evaluation failed with a KeyError.
---
 src/calliope/backend/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/parsing.py b/src/calliope/backend/parsing.py
index ff428d2..3761b68 100644
--- a/src/calliope/backend/parsing.py
+++ b/src/calliope/backend/parsing.py
@@ -71,6 +71,7 @@ class ParsedBackendEquation:
         """
         valid_eval_classes: tuple = (
             expression_parser.EvalOperatorOperand,
+            expression_parser.EvalSignOp,
             expression_parser.EvalFunction,
         )
         to_find = expression_parser.EvalSubExpressions
@@ -91,6 +92,7 @@ class ParsedBackendEquation:
         valid_eval_classes = tuple(
             [
                 expression_parser.EvalOperatorOperand,
+                expression_parser.EvalSignOp,
                 expression_parser.EvalFunction,
                 expression_parser.EvalSlicedComponent,
             ]
-- 
2.43.0


From 0de2c7fc0702b71e99f1b7f0fc3b6f2c97677f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 02/39] fix: build global expressions whose equation has none
 of the foreach dimensions

---
 src/calliope/backend/gurobi_backend_model.py | 2 +-
 src/calliope/backend/pyomo_backend_model.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 0d75250..ebc804a 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -108,7 +108,7 @@ class GurobiBackendModel(backend_model.BackendModel):
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
         self._clean_arrays(expression)
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f6430cb..8afcfbd 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -219,7 +219,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
 
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
-- 
2.43.0


From 1fa219df5ad84e9a21abd062d5d56fc91ec14d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 03/39] fix: apply user-given values at the labels they are
 given for

update_input, fix_variable and unfix_variable misapplied or rejected arrays that hold
only some labels or dimensions of the array being updated, or NaN in place of False.
---
 src/calliope/backend/backend_model.py       | 25 +++++++++++++++++++--
 src/calliope/backend/pyomo_backend_model.py |  6 +++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index e8ae0a5..f792949 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1232,12 +1232,12 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             tuple[xr.DataArray, xr.DataArray, bool]:
                 The original and new values and a flag for whether the original are mutable object that need updating with a backend-specific method.
         """
-        new_values = xr.DataArray(new_values)
         math = self.math.find(name, subset={"parameters", "lookups"})
         obj_type = math._group
         obj_type_singular = obj_type.removesuffix("s")
         dataset_da = getattr(self, f"get_{obj_type_singular}")(name)
         input_da = self.inputs[name]
+        new_values = self._match_index(new_values)
         missing_dims_in_new_vals = set(dataset_da.dims).difference(new_values.dims)
         missing_dims_in_orig_vals = set(new_values.dims).difference(dataset_da.dims)
 
@@ -1278,7 +1278,28 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             update_mutable = False
         else:
             update_mutable = True
-        return dataset_da, new_values, update_mutable
+        return dataset_da, new_values.broadcast_like(dataset_da), update_mutable
+
+    def _match_index(self, values: xr.DataArray | SupportsFloat) -> xr.DataArray:
+        """Match the index of user-given values to the index of the model data.
+
+        Args:
+            values (xr.DataArray | SupportsFloat): User-given values.
+
+        Returns:
+            xr.DataArray:
+                `values` indexed over all model labels of the dimensions it has.
+                It is empty (NaN) at those labels for which no value has been given.
+        """
+        values = xr.DataArray(values)
+        return values.reindex(
+            {
+                dim: self.inputs[dim]
+                for dim, labels in values.indexes.items()
+                if dim in self.inputs.dims
+                and not labels.equals(self.inputs.indexes[dim])
+            }
+        )
 
     @abstractmethod
     def update_variable_bounds(
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 8afcfbd..560f7f2 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -481,7 +481,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         variable_da = self.get_variable(name)
         where_da = variable_da.notnull()
         if where is not None:
-            where_da = where_da & where.fillna(False)
+            where = self._match_index(where)
+            where_da = where_da & where.fillna(False).astype(bool)
         self._apply_func(self._fix_pyomo_variable, where_da, 1, variable_da)
 
     def unfix_variable(  # noqa: D102, override
@@ -490,7 +491,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         variable_da = self.get_variable(name)
         where_da = variable_da.notnull()
         if where is not None:
-            where_da = where_da & where.fillna(False)
+            where = self._match_index(where)
+            where_da = where_da & where.fillna(False).astype(bool)
         self._apply_func(self._unfix_pyomo_variable, where_da, 1, variable_da)
 
     @property
-- 
2.43.0


From 62da5181e6b4e150777174e6d020beba0da00296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 04/39] fix: allow lookups to be updated on a built model

The pyomo instance holds no lookups, so deleting one raised an AttributeError, and a
partial update of a boolean lookup turned it into an array that is true everywhere it is defined.
---
 src/calliope/backend/backend_model.py       | 2 ++
 src/calliope/backend/pyomo_backend_model.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index f792949..c56d4b7 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1249,6 +1249,8 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 "info",
             )
         new_input_da = new_values.broadcast_like(input_da).fillna(input_da)
+        if input_da.dtype.kind == "b":
+            new_input_da = new_input_da.astype(bool)
         new_input_da.attrs = input_da.attrs
         self.inputs[name] = new_input_da
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 560f7f2..221c826 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -417,7 +417,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def delete_component(  # noqa: D102, override
         self, key: str, component_type: ALL_COMPONENTS_T
     ) -> None:
-        component_dict = getattr(self._instance, component_type)
+        component_dict = getattr(self._instance, component_type, {})
         if key in component_dict:
             del component_dict[key]
 
-- 
2.43.0


From 48860ffc572ac9592f0059ba790c8aa608b00586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 05/39] fix: forget shadow prices of earlier solves when they
 are no longer tracked

Solving with CBC after a solve with another solver reported the old shadow prices.
---
 src/calliope/backend/pyomo_backend_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 221c826..2754eb6 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -874,6 +874,8 @@ class PyomoShadowPrices(backend_model.ShadowPrices):
     def deactivate(self):  # noqa: D102, override
         ...
         self._dual_obj.deactivate()
+        # Values of an earlier solve do not describe any later solution.
+        self._dual_obj.clear()
 
     @property
     def is_active(self) -> bool:  # noqa: D102, override
-- 
2.43.0


From fc231542616ffae03962af93a566f2a37d7ae619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 06/39] fix: union no longer shares sections of the merged-in
 mapping with the result

A section merged in as empty, or by the replacement marker, was inserted by
reference, so later merges into the result modified the definition it came
from. With an override dictionary using the replacement marker, this let
scenario overrides leak into (and take precedence over) the override dictionary.
---
 src/calliope/attrdict.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 64189af..893ec8e 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -245,6 +245,9 @@ class AttrDict(dict):
                 raise KeyError(f"Key defined twice: {k}")
             else:
                 other_value = other.get_key(k)
+                if isinstance(other_value, AttrDict):
+                    # Never share (empty) sections with `other`
+                    other_value = other_value.copy()
                 # If other value is None, and would overwrite an entire subdict,
                 # we skip it
                 if not (
@@ -253,4 +256,8 @@ class AttrDict(dict):
                     self.set_key(k, other_value)
         for k in wipe_keys:
             self.del_key(k)
-            self.set_key(k, other.get_key(k + "." + WIPE_KEY))
+            wipe_value = other.get_key(k + "." + WIPE_KEY)
+            if isinstance(wipe_value, AttrDict):
+                # Never share the replacement section with `other`
+                wipe_value = wipe_value.copy()
+            self.set_key(k, wipe_value)
-- 
2.43.0


From 6e5c044a15568af0e3167574447f91389083f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 07/39] fix: the replacement marker works on a section that
 does not exist yet

It raised a key error on deleting the section.
---
 src/calliope/attrdict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 893ec8e..7191d99 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -16,6 +16,7 @@ class __Missing:
 
 
 _MISSING = __Missing()
+_MISSING_SECTION = __Missing()
 
 
 class AttrDict(dict):
@@ -255,7 +256,8 @@ class AttrDict(dict):
                 ):
                     self.set_key(k, other_value)
         for k in wipe_keys:
-            self.del_key(k)
+            if self.get_key(k, _MISSING_SECTION) is not _MISSING_SECTION:
+                self.del_key(k)
             wipe_value = other.get_key(k + "." + WIPE_KEY)
             if isinstance(wipe_value, AttrDict):
                 # Never share the replacement section with `other`
-- 
2.43.0


From 2c74bdfa9511a5332e5a69e884159051e6c0c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 08/39] fix: union without override permission does not replace
 a whole section

A plain value merged onto a section silently removed everything in it,
although overriding was not allowed.
---
 src/calliope/attrdict.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 7191d99..8d977b1 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -242,7 +242,12 @@ class AttrDict(dict):
             override_keys = other_keys
             wipe_keys = []
         for k in override_keys:
-            if not allow_override and k in self_keys:
+            replaces_section = (
+                isinstance(self.get_key(k, None), AttrDict)
+                and other.get_key(k) is not None
+                and not isinstance(other.get_key(k), AttrDict)
+            )
+            if not allow_override and (k in self_keys or replaces_section):
                 raise KeyError(f"Key defined twice: {k}")
             else:
                 other_value = other.get_key(k)
-- 
2.43.0


From 9e1fc51356ed8bc8ef4330cea05bfe24f08647f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 09/39] fix: set_key of a mapping replaces an existing null or
 scalar

An empty mapping was ignored and a non-empty one raised an attribute error.
---
 src/calliope/attrdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 8d977b1..6b35c89 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -106,7 +106,7 @@ class AttrDict(dict):
                 else:
                     raise KeyError("Cannot set nested key on non-dict key.")
         else:
-            if key in self and isinstance(value, AttrDict):
+            if isinstance(self.get(key), AttrDict) and isinstance(value, AttrDict):
                 for k, v in value.items():
                     self[key].set_key(k, v)
             else:
-- 
2.43.0


From 0ec3f2b9bd0ef3c6417b4e28a20392d06004320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 10/39] fix: set_key no longer wipes a section when a deeper
 key is not a mapping

The key error meant to stop on a non-dict key below the first level was caught
by the caller one level up, which then replaced the whole section.
---
 src/calliope/attrdict.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 6b35c89..1a90b9b 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -92,19 +92,14 @@ class AttrDict(dict):
             value = AttrDict(value)
         if "." in key:
             key, remainder = key.split(".", 1)
-            try:
-                self[key].set_key(remainder, value)
-            except KeyError:
+            if self.get(key) is None:  # If missing or None, we (re)place it
                 self[key] = AttrDict()
+            try:
                 self[key].set_key(remainder, value)
             except AttributeError:
-                if self[key] is None:  # If the value is None, we replace it
-                    self[key] = AttrDict()
-                    self[key].set_key(remainder, value)
-                # Else there is probably something there, and we don't just
+                # There is probably something there, and we don't just
                 # want to overwrite so stop and warn the user
-                else:
-                    raise KeyError("Cannot set nested key on non-dict key.")
+                raise KeyError("Cannot set nested key on non-dict key.")
         else:
             if isinstance(self.get(key), AttrDict) and isinstance(value, AttrDict):
                 for k, v in value.items():
-- 
2.43.0


From 142263f945101936be4b32d6dadd1a203b5b345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 11/39] fix: template references nested inside a template
 definition are resolved

They were left in the resolved model definition as a literal 'template' option.
---
 src/calliope/preprocess/model_definition.py | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/calliope/preprocess/model_definition.py b/src/calliope/preprocess/model_definition.py
index e168b7f..d242531 100644
--- a/src/calliope/preprocess/model_definition.py
+++ b/src/calliope/preprocess/model_definition.py
@@ -239,21 +239,31 @@ class TemplateSolver:
             )
         stack.add(name)
 
+        result = self._resolve_template_section(self._raw_templates[name], stack)
+
+        stack.remove(name)
+        return result
+
+    def _resolve_template_section(self, section, stack: set[str]):
+        """Resolves template calls anywhere within the definition of a template."""
+        if not isinstance(section, dict):
+            return section
+
         result = AttrDict()
-        raw_data = self._raw_templates[name]
-        if self.TEMPLATE_CALL in raw_data:
+        if self.TEMPLATE_CALL in section:
             # Current template takes precedence when overriding values
-            inherited_name = raw_data[self.TEMPLATE_CALL]
+            inherited_name = section[self.TEMPLATE_CALL]
             if inherited_name in self.resolved_templates:
                 inherited_data = self.resolved_templates[inherited_name]
             else:
                 inherited_data = self._resolve_template(inherited_name, stack)
             result.union(inherited_data)
 
-        local_data = {k: raw_data[k] for k in raw_data.keys() - {self.TEMPLATE_CALL}}
+        local_data = {
+            k: self._resolve_template_section(section[k], stack)
+            for k in section.keys() - {self.TEMPLATE_CALL}
+        }
         result.union(local_data, allow_override=True)
-
-        stack.remove(name)
         return result
 
     def _resolve_data(self, section, level: int = 0):
-- 
2.43.0


From fbb3bf3e300181d051b751493b8723f8cdd5baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 12/39] fix: updating a configuration rejects options that do
 not exist

---
 src/calliope/schemas/general.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/calliope/schemas/general.py b/src/calliope/schemas/general.py
index 77bcb83..bcabf9d 100644
--- a/src/calliope/schemas/general.py
+++ b/src/calliope/schemas/general.py
@@ -88,7 +88,7 @@ class CalliopeDictModel(RootModel):
                 new_dict[key] = key_class.update(val, deep=deep)
             elif isinstance(key_class, CalliopeListModel):
                 new_dict[key] = key_class.update(val)
-            elif key_class == val:
+            elif key in self.root and key_class == val:
                 continue
             else:
                 LOGGER.debug(f"Adding {self.__class__.__name__} entry: `{key}`")
@@ -158,12 +158,13 @@ class CalliopeBaseModel(BaseModel):
         # Iterate through dict to be updated and convert any sub-dicts into their respective pydantic model objects.
         # Wrapped in `AttrDict` to allow users to define dot notation nested configuration.
         for key, val in AttrDict(update_dict).items():
-            key_class = getattr(self, key, None)
+            known = key in type(self).model_fields or key in (self.model_extra or {})
+            key_class = getattr(self, key) if known else None
             if isinstance(key_class, CalliopeBaseModel | CalliopeDictModel):
                 new_dict[key] = key_class.update(val, deep=deep)
             elif isinstance(key_class, CalliopeListModel):
                 new_dict[key] = key_class.update(val)
-            elif key_class == val:
+            elif known and key_class == val:
                 continue
             else:
                 LOGGER.debug(
@@ -171,7 +172,8 @@ class CalliopeBaseModel(BaseModel):
                 )
                 new_dict[key] = val
         updated = super().model_copy(update=new_dict, deep=deep)
-        return updated.model_validate(updated.model_dump())
+        # Fields that are not known are lost on dumping but have to be part of the validation.
+        return updated.model_validate(new_dict | updated.model_dump())
 
     @classmethod
     def model_no_ref_schema(cls) -> AttrDict:
-- 
2.43.0


From 369f1e3681bec2b18b39ccd90721b6ec137e84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 13/39] fix: math of the previous mode does not remain when a
 model is re-initialised with another one

---
 src/calliope/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 7461d60..abedf32 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -194,10 +194,11 @@ class Model(ModelStructure):
                 attrs.math.init.model_dump(),
                 validate=self.config.init.pre_validate_math_strings,
             )
-            attrs = attrs.update(
-                {
-                    "runtime.math_priority": math_priority,
-                    "math.build": math.model_dump(),
+            # Components of the previous math that are no longer requested must not remain
+            attrs = attrs.model_copy(
+                update={
+                    "runtime": attrs.runtime.update({"math_priority": math_priority}),
+                    "math": attrs.math.model_copy(update={"build": math}),
                 }
             )
         if inputs:
-- 
2.43.0


From 1e350f2e371181990b702c488ed3e1a5fe6fd6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 14/39] fix: operate mode works when one window covers the
 whole time series

---
 src/calliope/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index abedf32..ccd9e99 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -570,7 +570,10 @@ class Model(ModelStructure):
             iteration_results = self.backend._solve(solver_config, warmstart=False)
             iteration_results.coords["timesteps"] = new_ts
 
-        results_list.append(iteration_results.sel(timesteps=slice(windowstep, None)))
+        last_windowstep = self.inputs.windowsteps[-1]
+        results_list.append(
+            iteration_results.sel(timesteps=slice(last_windowstep, None))
+        )
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
             set(
-- 
2.43.0


From 6fff28b85fdee6a3a87435bd0264601a597d0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 15/39] fix: operate mode can be built again with other windows

---
 src/calliope/model.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index ccd9e99..c01c745 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -292,16 +292,8 @@ class Model(ModelStructure):
 
         self.config = self.config.update({"build": kwargs})
 
-        mode = self.config.init.mode
-        if mode == "operate":
-            backend_input = self._prepare_operate_mode_inputs(self.config.build.operate)
-        else:
-            backend_input = self.inputs
-
-        self.backend = backend.get_model_backend(
-            self.config.build, backend_input, self.math.build
-        )
-        self.backend.add_optimisation_components()
+        self._start_window_idx = 0
+        self._build_backend()
 
         log_time(
             LOGGER,
@@ -312,6 +304,18 @@ class Model(ModelStructure):
 
         self._is_built = True
 
+    def _build_backend(self) -> None:
+        """Build the optimisation problem, in operate mode that of the current window."""
+        if self.config.init.mode == "operate":
+            backend_input = self._prepare_operate_mode_inputs(self.config.build.operate)
+        else:
+            backend_input = self.inputs
+
+        self.backend = backend.get_model_backend(
+            self.config.build, backend_input, self.math.build
+        )
+        self.backend.add_optimisation_components()
+
     def solve(self, force: bool = False, warmstart: bool = False, **kwargs) -> None:
         """Solve the built optimisation problem.
 
@@ -480,6 +484,8 @@ class Model(ModelStructure):
             raise exceptions.ModelError(
                 "Unable to run this model in operate (i.e. dispatch) mode because time clustering is in use"
             )
+        # There may be windows of a previous build with other configuration options.
+        self.inputs = self.inputs.drop_dims("windowsteps", errors="ignore")
         self.inputs.coords["windowsteps"] = pd.date_range(
             self.inputs.timesteps[0].item(),
             self.inputs.timesteps[-1].item(),
@@ -518,7 +524,7 @@ class Model(ModelStructure):
         if self._start_window_idx != 0:
             LOGGER.info("Optimisation model | Resetting model to first time window.")
             self._start_window_idx = 0
-            self.build(force=True)
+            self._build_backend()
 
         LOGGER.info("Optimisation model | Running first time window.")
 
@@ -549,7 +555,7 @@ class Model(ModelStructure):
                     "Optimisation model | Reaching the end of the timeseries. "
                     "Re-building model with shorter time horizon."
                 )
-                self.build(force=True)
+                self._build_backend()
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
-- 
2.43.0


From c386d9f6d65cff17ff813f59d109b6f0cf54d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 16/39] fix: shadow prices of all operate mode windows are
 available

---
 src/calliope/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index c01c745..52691b9 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -525,6 +525,7 @@ class Model(ModelStructure):
             LOGGER.info("Optimisation model | Resetting model to first time window.")
             self._start_window_idx = 0
             self._build_backend()
+            self.backend.shadow_prices.track_constraints(solver_config.shadow_prices)
 
         LOGGER.info("Optimisation model | Running first time window.")
 
@@ -556,6 +557,9 @@ class Model(ModelStructure):
                     "Re-building model with shorter time horizon."
                 )
                 self._build_backend()
+                self.backend.shadow_prices.track_constraints(
+                    solver_config.shadow_prices
+                )
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
-- 
2.43.0


From 13e8158c11e5ac27106f7d28ac02762682ba6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 17/39] fix: operate mode does not reuse values of the previous
 window where the next has none

---
 src/calliope/model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 52691b9..197d96f 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -551,17 +551,21 @@ class Model(ModelStructure):
             ).drop_vars(["horizonsteps", "windowsteps"], errors="ignore")
             new_ts = new_inputs.timesteps.copy()
 
-            if len(new_inputs.timesteps) != len(iteration_results.timesteps):
+            new_length = len(new_inputs.timesteps) != len(iteration_results.timesteps)
+            if new_length:
                 LOGGER.info(
                     "Optimisation model | Reaching the end of the timeseries. "
                     "Re-building model with shorter time horizon."
                 )
+            else:
+                new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
+
+            if new_length or self._has_new_missing_values(new_inputs):
                 self._build_backend()
                 self.backend.shadow_prices.track_constraints(
                     solver_config.shadow_prices
                 )
             else:
-                new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
                     if (
                         "timesteps" in param_data.dims
@@ -594,6 +598,23 @@ class Model(ModelStructure):
         )
         return results
 
+    def _has_new_missing_values(self, new_inputs: xr.Dataset) -> bool:
+        """Check if data of a new operate mode time slice is missing where the previous slice had values.
+
+        Updating inputs in-place would leave values of the previous time slice where there is no new value.
+
+        Args:
+            new_inputs (xr.Dataset): Inputs of the new time slice, with the timestep labels of the backend.
+
+        Returns:
+            bool: True if there are any new missing values.
+        """
+        return any(
+            (data.isnull() & self.backend.inputs[name].notnull()).any().item()
+            for name, data in new_inputs.data_vars.items()
+            if "timesteps" in data.dims
+        )
+
     def _recalculate_storage_initial(self, results: xr.Dataset) -> xr.DataArray:
         """Calculate the initial level of storage devices for a new operate mode time slice.
 
-- 
2.43.0


From a63401295f08d592defc95fbccab700efc2ef7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 18/39] fix: operate mode updates time-dependent lookups
 between windows

---
 src/calliope/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 197d96f..b05c150 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -569,7 +569,10 @@ class Model(ModelStructure):
                 for param_name, param_data in new_inputs.data_vars.items():
                     if (
                         "timesteps" in param_data.dims
-                        and param_name in self.backend.parameters
+                        and (
+                            param_name in self.backend.parameters
+                            or param_name in self.backend.lookups
+                        )
                         and not param_data.equals(self.backend.inputs[param_name])
                     ):
                         self.backend.update_input(param_name, param_data)
-- 
2.43.0


From 9e0a9577e9e6d2698a0cc2d8cde9002ebe7466e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 19/39] fix: keywords unknown to build and solve are accepted
 again, as existing callers pass them

---
 src/calliope/schemas/general.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/calliope/schemas/general.py b/src/calliope/schemas/general.py
index bcabf9d..01dd09a 100644
--- a/src/calliope/schemas/general.py
+++ b/src/calliope/schemas/general.py
@@ -158,13 +158,12 @@ class CalliopeBaseModel(BaseModel):
         # Iterate through dict to be updated and convert any sub-dicts into their respective pydantic model objects.
         # Wrapped in `AttrDict` to allow users to define dot notation nested configuration.
         for key, val in AttrDict(update_dict).items():
-            known = key in type(self).model_fields or key in (self.model_extra or {})
-            key_class = getattr(self, key) if known else None
+            key_class = getattr(self, key, None)
             if isinstance(key_class, CalliopeBaseModel | CalliopeDictModel):
                 new_dict[key] = key_class.update(val, deep=deep)
             elif isinstance(key_class, CalliopeListModel):
                 new_dict[key] = key_class.update(val)
-            elif known and key_class == val:
+            elif key_class == val:
                 continue
             else:
                 LOGGER.debug(
@@ -172,8 +171,7 @@ class CalliopeBaseModel(BaseModel):
                 )
                 new_dict[key] = val
         updated = super().model_copy(update=new_dict, deep=deep)
-        # Fields that are not known are lost on dumping but have to be part of the validation.
-        return updated.model_validate(new_dict | updated.model_dump())
+        return updated.model_validate(updated.model_dump())
 
     @classmethod
     def model_no_ref_schema(cls) -> AttrDict:
-- 
2.43.0


From d2858059fa9fc58171b3421af108eb2a53dfcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 20/39] fix: operate mode ignores data that is not part of the
 math when looking for missing values

---
 src/calliope/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index b05c150..8d9fe6e 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -615,7 +615,7 @@ class Model(ModelStructure):
         return any(
             (data.isnull() & self.backend.inputs[name].notnull()).any().item()
             for name, data in new_inputs.data_vars.items()
-            if "timesteps" in data.dims
+            if "timesteps" in data.dims and name in self.backend.inputs
         )
 
     def _recalculate_storage_initial(self, results: xr.Dataset) -> xr.DataArray:
-- 
2.43.0


From 5dfc90648fd0126b0a258acdfa97da54318c4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 21/39] fix: the cost limit of an earlier SPORES run does not
 constrain a new baseline

---
 src/calliope/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 8d9fe6e..684e356 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -655,6 +655,14 @@ class Model(ModelStructure):
         latest_spore: int = 0
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
+            # The limit set by a previous solve must not constrain the new baseline.
+            self.backend.update_input(
+                "spores_baseline_cost",
+                self.inputs.get(
+                    "spores_baseline_cost",
+                    self.math.build.parameters["spores_baseline_cost"].default,
+                ),
+            )
             self.backend.set_objective(self.config.build.objective)
             baseline_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(baseline_results, spores_config, 0)
-- 
2.43.0


From af2c4e0e058c3d6c813fdf7c09c609633fb48997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 22/39] fix: technologies whose SPORES tracking parameter is
 false are not tracked

---
 src/calliope/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 684e356..2d537f4 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -904,11 +904,9 @@ class Model(ModelStructure):
         }
 
         # Filter for technologies of interest
+        tracking = self.inputs.get(spores_config.tracking_parameter, xr.DataArray(True))
         spores_techs = (
-            self.inputs.get(
-                spores_config.tracking_parameter, xr.DataArray(True)
-            ).notnull()
-            & self.inputs.definition_matrix
+            tracking.notnull() & (tracking != False) & self.inputs.definition_matrix  # noqa: E712
         )
         old_score = self.backend.get_parameter(
             "spores_score", as_backend_objs=False
-- 
2.43.0


From f0e728091c8573f7486c5dbe21515ac406ce24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 23/39] fix: loading a data table does not rename the axes of
 the dataframe given by the user

---
 src/calliope/preprocess/data_tables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1f9b161..607ba4f 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -321,11 +321,10 @@ class DataTable:
             self._raise_error(f"Expected {len(names)} {axis} levels in loaded data.")
         mapper = self.input.rename_dims
         if mapper:
-            df.rename_axis(inplace=True, **{axis: mapper})
+            df = df.rename_axis(**{axis: mapper})
         self._compare_axis_names(getattr(df, axis).names, names, axis)
-        df.rename_axis(inplace=True, **{axis: names})
 
-        return df
+        return df.rename_axis(**{axis: names})
 
     def _check_for_protected_params(self, tdf: pd.Series):
         """Raise an error if any defined inputs are in a pre-configured set of _protected_ inputs.
-- 
2.43.0


From 7830732a8a5a34872f1e195677ba2fc7aeabd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 24/39] fix: data tables with more rows or columns than their
 dimensions describe raise an error

---
 src/calliope/preprocess/data_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 607ba4f..ea4cc83 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -261,6 +261,10 @@ class DataTable:
         for axis, names in axis_names.items():
             if names is None and len(getattr(df, axis).names) != 1:
                 self._raise_error(f"Expected a single {axis} level in loaded data.")
+            elif names is None and len(getattr(df, axis)) > 1:
+                self._raise_error(
+                    f"Expected a single entry along {axis} in loaded data, as no {axis} dimensions are defined."
+                )
             elif names is not None:
                 df = self._rename_axes(df, axis, names)
 
-- 
2.43.0


From 3b6c0e273caa1017173079adc3577783330c9b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 25/39] fix: false entries of lookups in data tables do not
 define the lookup

---
 src/calliope/preprocess/data_tables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index ea4cc83..54ff9cb 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -178,9 +178,8 @@ class DataTable:
         """
 
         def __extract_data(grouped_series):
-            index_items = sorted(
-                list(set(grouped_series.dropna(subset=[param])[lookup_dim].values))
-            )
+            is_set = grouped_series[param].notnull() & (grouped_series[param] != 0)
+            index_items = sorted(list(set(grouped_series[is_set][lookup_dim].values)))
             if len(index_items) == 1:
                 index_items = index_items[0]
             if index_items:
-- 
2.43.0


From ddab698000b26b07ac91f4c775c919f633c0f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 26/39] fix: repeated items in the header of a CSV data table
 raise an error

---
 src/calliope/preprocess/data_tables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 54ff9cb..908ab25 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -229,6 +229,16 @@ class DataTable:
         index_col = None if self.index is None else list(range(len(self.index)))
 
         filepath = relative_path(self.model_definition_path, filename)
+        if self.columns is not None:
+            # Pandas would silently rename repeated header items (`a`, `a.1`, ...)
+            header_items = pd.read_csv(
+                filepath, encoding="utf-8", header=None, nrows=len(header), dtype=str
+            ).iloc[:, len(index_col or []) :]
+            duplicated_items = header_items.T.duplicated()
+            if duplicated_items.any():
+                self._raise_error(
+                    f"Duplicate index items found: {header_items.T[duplicated_items].values.tolist()}"
+                )
         df = pd.read_csv(filepath, encoding="utf-8", header=header, index_col=index_col)
         return df
 
-- 
2.43.0


From 06073148129d8e198fc43899959cd2a7d81ac71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 27/39] fix: booleans in data table columns of mixed data types
 are not read as strings (and then always as true)

---
 src/calliope/preprocess/data_tables.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 908ab25..906f474 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -27,6 +27,14 @@ class DataTable:
 
     MESSAGE_TEMPLATE = "(data_tables, {name}) | {message}."
     PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from"]
+    BOOLS = {
+        "True": True,
+        "TRUE": True,
+        "true": True,
+        "False": False,
+        "FALSE": False,
+        "false": False,
+    }
 
     def __init__(
         self,
@@ -240,6 +248,10 @@ class DataTable:
                     f"Duplicate index items found: {header_items.T[duplicated_items].values.tolist()}"
                 )
         df = pd.read_csv(filepath, encoding="utf-8", header=header, index_col=index_col)
+        # Pandas keeps booleans as strings in columns with more than one data type
+        for idx, dtype in enumerate(df.dtypes):
+            if dtype.kind == "O":
+                df.isetitem(idx, df.iloc[:, idx].map(lambda x: self.BOOLS.get(x, x)))
         return df
 
     def _df_to_ds(self, df: pd.DataFrame) -> xr.Dataset:
-- 
2.43.0


From b14b217f90f08541200de8ea4a53eb7632771844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:12 +0000
Subject: [PATCH 28/39] fix: the resolution of resampled timesteps is the sum
 of that of the source timesteps

---
 src/calliope/preprocess/model_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 813ec5d..4717d43 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -788,6 +788,10 @@ class ModelDataCleaner(ModelDTypeUpdater):
                 "Must define at least one timeseries data input in a Calliope model."
             )
         runtime_updater = {}
+        # The resolution of source timesteps, on which subsetting and resampling then build.
+        if not self.runtime.instantiated:
+            self.dataset = time.add_inferred_time_params(self.dataset)
+
         if self.config.subset != self.runtime.subset:
             self._subset_dims()
             runtime_updater["subset"] = self.config.subset.model_dump()
@@ -795,9 +799,6 @@ class ModelDataCleaner(ModelDTypeUpdater):
             self._resample_dims()
             runtime_updater["resample"] = self.config.resample.model_dump()
 
-        if not self.runtime.instantiated:
-            self.dataset = time.add_inferred_time_params(self.dataset)
-
         if self.runtime.time_cluster is None and self.config.time_cluster is not None:
             self.dataset = time.cluster(
                 self.dataset, self.config.time_cluster, self.config.datetime_format
-- 
2.43.0


From a82e0b2fb85aff4596376b0248fbca7156b567a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 29/39] fix: the subset end `2005-01` covers the whole of that
 month when compared with the input data

---
 src/calliope/preprocess/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index ddd4d10..7cd90d1 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -218,6 +218,8 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
         )
     try:
         time_subset_dt = pd.to_datetime(time_subset, format="ISO8601")
+        # A timestamp such as `2005-01` includes everything up to the end of its period.
+        time_subset_end = pd.Period(str(time_subset[1])).end_time
     except ValueError as e:
         raise exceptions.ModelError(
             "Timeseries subset must be in ISO format (anything up to the  "
@@ -228,7 +230,7 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
     df_start_time = ts_index[0]
     df_end_time = ts_index[-1]
     if (
-        time_subset_dt[1].date() < df_start_time.date()
+        time_subset_end.date() < df_start_time.date()
         or time_subset_dt[0].date() > df_end_time.date()
     ):
         raise exceptions.ModelError(
-- 
2.43.0


From f9500085c6d8056043b90456e391cb511de26e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 30/39] fix: technologies at nodes may change carriers and be
 inactive in their base definition

---
 src/calliope/preprocess/model_data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 4717d43..bf59ab1 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -229,9 +229,8 @@ class ModelDataBuilder(ModelDTypeUpdater):
             )
 
             tech_ds.coords["nodes"] = node_name
-            for ref_var in node_ref_vars:
-                tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
-            for ref_var in ["carrier_in", "carrier_out"]:
+            # Some references may only be made by technologies that are not active.
+            for ref_var in dict.fromkeys([*node_ref_vars, "carrier_in", "carrier_out"]):
                 if ref_var in tech_ds.data_vars:
                     tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
             if not tech_ds.nodes.shape:
-- 
2.43.0


From aa477e50e6745b11fc878abf1af28492d9e84701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 31/39] fix: one-way links between two carriers are not dropped
 as hanging links when subsetting nodes

---
 src/calliope/preprocess/model_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index bf59ab1..9e40d96 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -898,6 +898,7 @@ class ModelDataCleaner(ModelDTypeUpdater):
             subset_dataset.definition_matrix.sel(
                 techs=subset_dataset.base_tech == "transmission"
             )
+            .any("carriers")
             .sum("nodes")
             .where(lambda x: x == 1, drop=True)
             .techs
-- 
2.43.0


From ba40f795147a2fc201c614d7a93cfaf73188e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:24 +0000
Subject: [PATCH 32/39] fix: subsetting removes the data outside of the
 remaining technologies at nodes

---
 src/calliope/preprocess/model_data.py | 35 ++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 9e40d96..0e7d0e0 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -704,15 +704,7 @@ class ModelDataCleaner(ModelDTypeUpdater):
         """
         ds = self._update_dtypes(self.dataset)
         def_matrix = ds.carrier_in | ds.carrier_out
-        # NaNing values where they are irrelevant requires definition_matrix to be boolean
-        for var_name, var_data in ds.data_vars.items():
-            non_dims = set(def_matrix.dims).difference(var_data.dims)
-            var_updated = var_data.where(def_matrix.any(non_dims))
-            ds[var_name] = (
-                var_updated
-                if var_data.dtype.kind != "b"
-                else var_updated.fillna(False).astype(bool)
-            )
+        ds = self._mask_undefined(ds, def_matrix)
         # dropping index values where they are irrelevant requires definition_matrix to be NaN where False
         self.dataset = self._drop_undefined(ds, def_matrix)
 
@@ -809,6 +801,28 @@ class ModelDataCleaner(ModelDTypeUpdater):
             )
         self.runtime = self.runtime.update(runtime_updater)
 
+    @staticmethod
+    def _mask_undefined(ds: xr.Dataset, def_matrix: xr.DataArray) -> xr.Dataset:
+        """Remove data for members that are not defined.
+
+        Args:
+            ds (xr.Dataset): Dataset in which to remove data.
+            def_matrix (xr.DataArray): Boolean definition matrix.
+
+        Returns:
+            xr.Dataset: Input `ds` with data set to NaN (or False) where it is not relevant.
+        """
+        # NaNing values where they are irrelevant requires definition_matrix to be boolean
+        for var_name, var_data in ds.data_vars.items():
+            non_dims = set(def_matrix.dims).difference(var_data.dims)
+            var_updated = var_data.where(def_matrix.any(non_dims))
+            ds[var_name] = (
+                var_updated
+                if var_data.dtype.kind != "b"
+                else var_updated.fillna(False).astype(bool)
+            )
+        return ds
+
     @staticmethod
     def _drop_undefined(ds: xr.Dataset, def_matrix: xr.DataArray) -> xr.Dataset:
         """Drop undefined members from a dataset.
@@ -905,6 +919,9 @@ class ModelDataCleaner(ModelDTypeUpdater):
         )
         subset_dataset = subset_dataset.drop_sel(techs=hanging_links)
 
+        subset_dataset = self._mask_undefined(
+            subset_dataset, subset_dataset.definition_matrix
+        )
         self.dataset = self._drop_undefined(
             subset_dataset, subset_dataset.definition_matrix
         )
-- 
2.43.0


From 47c0fc90ee493df21035d61219e2617770641db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:49 +0000
Subject: [PATCH 33/39] fix: models without results are not marked as solved

---
 src/calliope/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 2d537f4..f0dd59a 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -184,7 +184,7 @@ class Model(ModelStructure):
 
         self._start_window_idx: int = 0
         self._is_built: bool = False
-        self._is_solved: bool = False if results is None else True
+        self._is_solved: bool = bool(self.results.data_vars)
         self.config = self.config.update({"init": kwargs})
 
         math_priority = model_math.get_math_priority(self.config.init)
@@ -406,7 +406,7 @@ class Model(ModelStructure):
         )
         self.results = results
 
-        self._is_solved = True
+        self._is_solved = bool(results.data_vars)
 
     def run(self, force_rerun=False):
         """Run the model.
-- 
2.43.0


From 4e535c303e7d7e570f6eb459684a95753f33043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:49 +0000
Subject: [PATCH 34/39] fix: a model is not marked as built when rebuilding it
 failed

---
 src/calliope/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index f0dd59a..f6fac14 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -293,6 +293,8 @@ class Model(ModelStructure):
         self.config = self.config.update({"build": kwargs})
 
         self._start_window_idx = 0
+        # Should building fail, there is no (complete) optimisation problem left.
+        self._is_built = False
         self._build_backend()
 
         log_time(
-- 
2.43.0


From d2e7d14d986c53c287d7df3d7f56618a43f42ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 35/39] fix: saving to netCDF does not change the model in
 memory, also when it fails

---
 src/calliope/io.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 9b01d6f..953961c 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -5,7 +5,6 @@
 import importlib.resources
 import logging
 import os
-from copy import deepcopy
 from io import StringIO
 from pathlib import Path
 from typing import Literal
@@ -141,7 +140,8 @@ def save_netcdf(
     **kwargs,
 ):
     """Save the model to a netCDF file."""
-    original_model_data_attrs = deepcopy(model_data.attrs)
+    # We work on a copy (including that of the attribute dictionaries), to never change the data in memory.
+    model_data = model_data.copy()
     for key, value in kwargs.items():
         model_data.attrs[key] = value
 
@@ -162,22 +162,15 @@ def save_netcdf(
         for k, v in model_data.data_vars.items()
     }
 
-    try:
-        model_data.to_netcdf(
-            path,
-            mode=mode,
-            format="netCDF4",
-            engine="netcdf4",
-            encoding=encoding,
-            group=group_name,
-        )
-        model_data.close()
-    finally:  # Revert model_data.attrs back
-        model_data.attrs = original_model_data_attrs
-        for var in model_data.data_vars.values():
-            _deserialise(var.attrs)
-        for var in model_data.coords.values():
-            _deserialise(var.attrs)
+    model_data.to_netcdf(
+        path,
+        mode=mode,
+        format="netCDF4",
+        engine="netcdf4",
+        encoding=encoding,
+        group=group_name,
+    )
+    model_data.close()
 
 
 def save_csv(
-- 
2.43.0


From e42fc34d8d68a72ba92a5615c396af17ae768f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 36/39] fix: attributes of dimensions are deserialised when
 reading netCDF files

---
 src/calliope/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 953961c..1aba821 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -40,7 +40,7 @@ def read_netcdf(
             datasets[group] = xr.Dataset()
             continue
         _deserialise(model_data.attrs)
-        for var in model_data.data_vars.values():
+        for var in model_data.variables.values():
             _deserialise(var.attrs)
         datasets[group] = model_data
     return datasets
-- 
2.43.0


From ad5479e6afcb7a5ea05e0292a11d6a9cf606f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 37/39] fix: missing values in arrays of strings are not read
 back as empty strings from netCDF files

---
 src/calliope/io.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 1aba821..4ef574b 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -42,6 +42,8 @@ def read_netcdf(
         _deserialise(model_data.attrs)
         for var in model_data.variables.values():
             _deserialise(var.attrs)
+        for name, var in model_data.data_vars.items():
+            model_data[name] = _deserialise_missing_strings(var)
         datasets[group] = model_data
     return datasets
 
@@ -132,6 +134,40 @@ def _deserialise(attrs: dict) -> None:
         attrs[attr] = set(attrs[attr])
 
 
+def _serialise_missing_strings(array: xr.DataArray) -> xr.DataArray:
+    """Replace missing values in an array of strings, which netCDF cannot represent.
+
+    Args:
+        array (xr.DataArray): Array in which to replace missing values.
+
+    Returns:
+        xr.DataArray:
+            If `array` consists of strings and missing values, a copy in which the `serialised_missing` attribute
+            refers to the string that replaces missing values. Otherwise `array`.
+    """
+    if array.dtype.kind != "O":
+        return array
+    strings = {i for i in array.values.ravel() if not pd.isnull(i)}
+    if (
+        not array.isnull().any()
+        or not strings
+        or any(not isinstance(i, str) for i in strings)
+    ):
+        return array
+    missing = ""
+    while missing in strings:
+        missing += "_"
+    return array.fillna(missing).assign_attrs(
+        array.attrs | {"serialised_missing": missing}
+    )
+
+
+def _deserialise_missing_strings(array: xr.DataArray) -> xr.DataArray:
+    """Inverse of `_serialise_missing_strings`."""
+    missing = array.attrs.pop("serialised_missing", None)
+    return array if missing is None else array.where(array != missing)
+
+
 def save_netcdf(
     model_data: xr.Dataset,
     group_name: str,
@@ -145,6 +181,9 @@ def save_netcdf(
     for key, value in kwargs.items():
         model_data.attrs[key] = value
 
+    for name, var in model_data.data_vars.items():
+        model_data[name] = _serialise_missing_strings(var)
+
     _serialise(model_data.attrs)
     for var in model_data.data_vars.values():
         _serialise(var.attrs)
-- 
2.43.0


From 94550320c4d2448a252ca7ebd1f3bfebb3d6ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 38/39] fix: boolean arrays are read back as booleans from
 netCDF files

---
 src/calliope/io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 4ef574b..4103cea 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -193,9 +193,7 @@ def save_netcdf(
     encoding: dict[str, dict] = {
         k: (
             {"zlib": False, "_FillValue": None}
-            if v.dtype.kind in ["U", "O"]
-            else {"zlib": False, "_FillValue": None, "dtype": "int8"}
-            if v.dtype.kind == "b"
+            if v.dtype.kind in ["U", "O", "b"]
             else {"zlib": True, "complevel": 4}
         )
         for k, v in model_data.data_vars.items()
-- 
2.43.0


From c505d87c96808ab4cfcf02b96dd2e341dc51c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 39/39] fix: allow_override applies to imports of imported
 files

---
 src/calliope/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 4103cea..1bc751c 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -311,7 +311,7 @@ def _resolve_yaml_imports(
 
         for k in imports:
             path = relative_path(base_path, k)
-            imported = read_rich_yaml(path)
+            imported = read_rich_yaml(path, allow_override=allow_override)
             # loaded is added to imported (i.e. it takes precedence)
             imported.union(loaded_dict, allow_override=allow_override)
             loaded_dict = imported
-- 
2.43.0

