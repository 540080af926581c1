From f4c9ddca35a416f8560497f2ac8a955c0bbc2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 01/87] fix: EDI files written by the library can be read back
 (filters key)

---
 mt_metadata/transfer_functions/io/edi/edi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..b909773 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1348,6 +1348,9 @@ class EDI:
                     continue
                 if f".{comp}." in key:
                     key = key.split(f".{comp}.", 1)[-1]
+                    if key == "filters":
+                        # filters cannot be recovered from the info section
+                        continue
                     electric.update_attribute(key, value)
         return electric
 
-- 
2.43.0


From f816da5a2d91d69132f2b3e709c64935f91eed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 02/87] fix: write enum values, not enum names, to EMTF XML

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 3703df0..73ca8e6 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -9,6 +9,7 @@ Created on Wed Mar  8 19:53:04 2023
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from enum import Enum
 from xml.etree import cElementTree as et
 
 from loguru import logger
@@ -116,6 +117,8 @@ def _write_single(
     """
 
     element = et.SubElement(parent, _capwords(key), attributes)
+    if isinstance(value, Enum):
+        value = value.value
     if value not in NULL_VALUES:
         element.text = str(value)
     return element
-- 
2.43.0


From 4439aa595ece5a44e68c7d844b2368c4cba471c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 03/87] fix: write transfer functions that have no rotation
 angle

---
 mt_metadata/transfer_functions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..b56cbb9 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1947,7 +1947,9 @@ class TF:
             raise TFError(msg)
         fn = self.save_dir.joinpath(fn_basename)
 
-        if not isinstance(self._rotation_angle, (float, int)):
+        if self._rotation_angle is not None and not isinstance(
+            self._rotation_angle, (float, int)
+        ):
             if self._rotation_angle.size != self.period.size:
                 self._rotation_angle = np.repeat(
                     self._rotation_angle.mean(), self.period.size
-- 
2.43.0


From 6359046b5195c604682ea9d0964a9cb2695483fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 04/87] fix: an unusable cache directory must not make field
 lookup fail

---
 mt_metadata/base/pydantic_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 404964b..8be9191 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -790,10 +790,10 @@ def _load_fields_from_disk(model_cls: type[BaseModel]) -> Dict[str, Any] | None:
     -----
     - Returns None on any read/parse error.
     """
-    path = _disk_cache_path(model_cls)
-    if not os.path.exists(path):
-        return None
     try:
+        path = _disk_cache_path(model_cls)
+        if not os.path.exists(path):
+            return None
         with open(path, "r", encoding="utf-8") as f:
             return json.load(f)
     except Exception:
@@ -819,8 +819,8 @@ def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> No
     -----
     - Overwrites any existing file for the same model fingerprint.
     """
-    path = _disk_cache_path(model_cls)
     try:
+        path = _disk_cache_path(model_cls)
         with open(path, "w", encoding="utf-8") as f:
             json.dump(tree, f, indent=2, ensure_ascii=False)
     except Exception:
-- 
2.43.0


From b7d3f6d8afa36f37970ca0d7fb96503c31017c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 05/87] fix: a failed field lookup must not be remembered as an
 empty field tree

---
 mt_metadata/base/pydantic_helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 8be9191..fdd6e7a 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -134,7 +134,12 @@ def get_all_fields_serializable(
         _FIELDS_TREE_CACHE[model_cls] = {}
 
         # Compute and persist
-        tree = _compute_fields_tree(model_cls)
+        try:
+            tree = _compute_fields_tree(model_cls)
+        except BaseException:
+            # do not leave the sentinel behind as if it were the answer
+            _FIELDS_TREE_CACHE.pop(model_cls, None)
+            raise
         _FIELDS_TREE_CACHE[model_cls] = tree
 
         if not _DISABLE_DISK_CACHE:
-- 
2.43.0


From 8c7d444a60f79728d4ff8cd910fba570b2a4123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 06/87] fix: cached field trees go stale when a nested model or
 a description changes

---
 mt_metadata/base/pydantic_helpers.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index fdd6e7a..3bf711f 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -706,7 +706,9 @@ def _cache_dir() -> str:
 #     return path
 
 
-def _model_fingerprint(model_cls: type[BaseModel]) -> str:
+def _model_fingerprint(
+    model_cls: type[BaseModel], _parents: tuple[type[BaseModel], ...] = ()
+) -> str:
     """
     Compute a stable fingerprint for a model class's fields.
 
@@ -723,14 +725,23 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
     Notes
     -----
     - Uses a sorted JSON of tuples:
-        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot)
+        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot,
+        description, default factory, validators, nested model fingerprint)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
     """
     field_map = getattr(model_cls, "model_fields", None) or getattr(
         model_cls, "__pydantic_fields__", {}
     )
+    validators_map = _collect_field_validator_map(model_cls)
+    parents = _parents + (model_cls,)
     parts = []
     for name, info in field_map.items():
+        nested = _extract_base_type(getattr(info, "annotation", None))
+        if _is_basemodel_subclass(nested) and nested not in parents:
+            nested_fingerprint = _model_fingerprint(nested, parents)
+        else:
+            nested_fingerprint = None
+        factory = getattr(info, "default_factory", None)
         extra = getattr(info, "json_schema_extra", None)
         if isinstance(extra, dict):
             try:
@@ -751,6 +762,10 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
                 repr(getattr(info, "annotation", None)),
                 _safe_repr(getattr(info, "default", None)),
                 extra_snapshot,
+                _safe_repr(getattr(info, "description", None)),
+                getattr(factory, "__qualname__", None),
+                bool(validators_map.get(name, False)),
+                nested_fingerprint,
             )
         )
     raw = json.dumps(sorted(parts), separators=(",", ":"), ensure_ascii=False)
-- 
2.43.0


From 96d1b546fa401488662567582ac41024b0fcee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 07/87] fix: do not believe a cache file that is not a field
 tree of the model

---
 mt_metadata/base/pydantic_helpers.py | 55 +++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 3bf711f..a4624c6 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -815,9 +815,62 @@ def _load_fields_from_disk(model_cls: type[BaseModel]) -> Dict[str, Any] | None:
         if not os.path.exists(path):
             return None
         with open(path, "r", encoding="utf-8") as f:
-            return json.load(f)
+            tree = json.load(f)
     except Exception:
         return None
+    return tree if _is_field_tree_of(model_cls, tree) else None
+
+
+def _is_field_tree_of(
+    model_cls: type[BaseModel],
+    tree: Any,
+    _parents: tuple[type[BaseModel], ...] = (),
+) -> bool:
+    """
+    Check that something loaded from disk is a field tree of the model.
+
+    Parameters
+    ----------
+    model_cls : type[BaseModel]
+        The model class.
+    tree : Any
+        The loaded object.
+
+    Returns
+    -------
+    bool
+        True if `tree` has exactly the non-deprecated fields of the model,
+        each described by a dictionary that describes the same kind of field.
+    """
+    field_map = getattr(model_cls, "model_fields", None) or getattr(
+        model_cls, "__pydantic_fields__", {}
+    )
+    names = {
+        name
+        for name, info in field_map.items()
+        if getattr(info, "deprecated", None) is None
+    }
+    if not isinstance(tree, dict) or set(tree) != names:
+        return False
+
+    for name, node in tree.items():
+        if not isinstance(node, dict):
+            return False
+        nested = _extract_base_type(getattr(field_map[name], "annotation", None))
+        if (
+            _is_basemodel_subclass(nested)
+            and nested.__name__ not in SPECIAL_CASE_MODEL_NAMES
+        ):
+            parents = _parents + (model_cls,)
+            if nested in parents:
+                # cycles are broken by an empty tree
+                if node:
+                    return False
+            elif not _is_field_tree_of(nested, node, parents):
+                return False
+        elif node.get("__field__") is not True:
+            return False
+    return True
 
 
 def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> None:
-- 
2.43.0


From faf48d66802748968410c0aaa24e0f54eaaad555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 08/87] fix: ListDict.pop removed the last item instead of the
 requested one

---
 mt_metadata/common/list_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..d4aa581 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -297,7 +297,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 69fa2c23543dd22da82b8a0b2733fe10f9404a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 09/87] fix: elevation lookup survives a lost connection and
 unexpected replies

---
 mt_metadata/transfer_functions/io/tools.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 943015d..98c59f6 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -210,11 +210,17 @@ def get_nm_elev(latitude, longitude):
         return 0.0
 
     # read the xml response and convert to a float
+    try:
+        content = response.read()
+    except Exception:
+        logger.error("Connection lost while getting elevation data.")
+        return 0.0
     try:
         # unpack the response to a dictionary
-        info = json.loads(response.read())
+        info = json.loads(content)
 
-    except json.JSONDecodeError:
+    # JSONDecodeError and UnicodeDecodeError are both ValueErrors
+    except ValueError:
         logger.error(
             f"Input values (latitude={latitude}, longitude={longitude}) "
             "could not be found on US National Map."
@@ -222,9 +228,12 @@ def get_nm_elev(latitude, longitude):
         return 0.0
     try:
         return float(info["value"])
-    except KeyError:
+    except (KeyError, IndexError):
         logger.warning("Could not find elevation data")
         return 0.0
+    except TypeError:
+        logger.warning(f"Could not find elevation data in {info}")
+        return 0.0
     except ValueError:
         logger.warning(f"Could not convert elevation {info['value']} to float")
         return 0.0
-- 
2.43.0


From 9e995ef1fb05d3078f28e26105c3d4423334f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 10/87] fix: read an experiment that has a single filter of a
 kind

---
 mt_metadata/timeseries/experiment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..fa195be 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -566,7 +566,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -575,7 +575,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -584,7 +584,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -593,7 +593,7 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["fir_filter"]:
@@ -602,7 +602,7 @@ class Experiment(MetadataBase):
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From cbad9bacb58506644f3f7b6f70d8e96541b7f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 11/87] fix: from_json reads the file it is given by name

---
 mt_metadata/base/metadata.py         | 19 ++++++++++---------
 mt_metadata/timeseries/experiment.py | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..a646a68 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1258,16 +1258,17 @@ class MetadataBase(DotNotationBaseModel):
         if isinstance(json_str, str):
             try:
                 json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
-        elif isinstance(json_str, Path):
-            if json_str.exists():
-                with open(json_str, "r") as fid:
+                is_file = json_path.is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_path, "r") as fid:
                     json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
+        elif isinstance(json_str, Path):
+            with open(json_str, "r") as fid:
+                json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = f"Input must be valid JSON string not {type(json_str)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index fa195be..8f427ac 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -351,16 +351,17 @@ class Experiment(MetadataBase):
         if isinstance(json_str, str):
             try:
                 json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
-        elif isinstance(json_str, Path):
-            if json_str.exists():
-                with open(json_str, "r") as fid:
+                is_file = json_path.is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_path, "r") as fid:
                     json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
+        elif isinstance(json_str, Path):
+            with open(json_str, "r") as fid:
+                json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = "Input must be valid JSON string not %"
             logger.error(msg, type(json_str))
-- 
2.43.0


From c348bc6a25f8d8f723203d162d4b3fece25de321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 12/87] fix: read a z-file that carries no covariance

---
 mt_metadata/transfer_functions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index b56cbb9..76accc6 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1532,6 +1532,8 @@ class TF:
         convenience method to compute errors from covariance
 
         """
+        if not (self.has_residual_covariance() and self.has_inverse_signal_power()):
+            return
         self._compute_impedance_error_from_covariance()
         self._compute_tipper_error_from_covariance()
 
-- 
2.43.0


From 7b93237b0a3da195140a8335ca2bc03e53a48b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 13/87] fix: reading a z-file cut inside its header never ended

---
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..31ff7f8 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -130,6 +130,8 @@ class ZMMHeader(object):
             self._header_count = 0
             header_list = []
             while "period" not in line:
+                if line == "":
+                    raise ZMMError(f"{self.fn} ends before the first period block")
                 header_list.append(line)
                 self._header_count += 1
 
-- 
2.43.0


From a75efb0f4e8b527eceb2c9f30a2f27150fa23dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 14/87] fix: a z-file cut between periods was read as if
 periods were zero

---
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 31ff7f8..a5c5e8e 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -599,7 +599,13 @@ class ZMM(ZMMHeader):
         self.dataset = self._initialize_transfer_function()
 
         ### read each data block and fill the appropriate array
-        for ii, period_block in enumerate(self._get_period_blocks()):
+        period_blocks = self._get_period_blocks()
+        if len(period_blocks) != self.num_freq:
+            raise ZMMError(
+                f"{self.fn} has {len(period_blocks)} period blocks, "
+                f"its header says {self.num_freq}"
+            )
+        for ii, period_block in enumerate(period_blocks):
             data_block = self._read_period_block(period_block)
             self.periods[ii] = data_block["period"]
 
-- 
2.43.0


From f4199a4d08033eae8582ea140fdb43d243507537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 15/87] fix: read EMTF XML with an empty StatisticalEstimates
 element

---
 .../io/emtfxml/metadata/statistical_estimates.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
index 24c2299..5b656eb 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
@@ -59,7 +59,8 @@ class StatisticalEstimates(MetadataBase):
 
         try:
             self.estimates_list = input_dict["statistical_estimates"]["estimate"]
-        except KeyError:
+        except (KeyError, TypeError):
+            # TypeError: the element is there but empty
             logger.warning("Could not statistical estimates")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
-- 
2.43.0


From 64011950c6c52cb0176b77fb9b2078292c2083ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 16/87] fix: read EMTF XML with an empty DataTypes element

---
 .../transfer_functions/io/emtfxml/metadata/data_types.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
index 108cc9f..63b2045 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
@@ -62,7 +62,8 @@ class DataTypes(MetadataBase):
         """
         try:
             self.data_types_list = input_dict["data_types"]["data_type"]
-        except KeyError:
+        except (KeyError, TypeError):
+            # TypeError: the element is there but empty
             logger.warning("Could not read Data Types")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
-- 
2.43.0


From b5cf451decf9be1db71da73e4bc945489be0e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 17/87] fix: read EMTF XML elements that have an empty child

---
 .../transfer_functions/io/emtfxml/metadata/helpers.py      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 73ca8e6..9f8a16e 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -139,8 +139,11 @@ def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
     """
 
     try:
-        element_dict = {element_name: root_dict[element_name]}
-        cls.from_dict(element_dict)
+        element = root_dict[element_name]
+        if isinstance(element, dict):
+            # an empty child element says nothing, keep the default
+            element = {k: v for k, v in element.items() if v is not None}
+        cls.from_dict({element_name: element})
 
     except KeyError:
         logger.warning(f"No {element_name} in EMTF XML")
-- 
2.43.0


From 63196519553185eb51b8f7f4527097dbd8c5efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 18/87] fix: cached field trees go stale when an enumeration
 changes

---
 mt_metadata/base/pydantic_helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index a4624c6..3fa2d31 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -130,11 +130,10 @@ def get_all_fields_serializable(
                 _FIELDS_TREE_CACHE[model_cls] = disk
                 return disk
 
-        # Sentinel to break cycles
-        _FIELDS_TREE_CACHE[model_cls] = {}
-
         # Compute and persist
         try:
+            # Sentinel to break cycles
+            _FIELDS_TREE_CACHE[model_cls] = {}
             tree = _compute_fields_tree(model_cls)
         except BaseException:
             # do not leave the sentinel behind as if it were the answer
@@ -726,7 +725,8 @@ def _model_fingerprint(
     -----
     - Uses a sorted JSON of tuples:
         (name, deprecated, annotation repr, default repr, json_schema_extra snapshot,
-        description, default factory, validators, nested model fingerprint)
+        description, default factory, validators, enum values,
+        nested model fingerprint)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
     """
     field_map = getattr(model_cls, "model_fields", None) or getattr(
@@ -765,6 +765,7 @@ def _model_fingerprint(
                 _safe_repr(getattr(info, "description", None)),
                 getattr(factory, "__qualname__", None),
                 bool(validators_map.get(name, False)),
+                _safe_repr(_extract_enum_info(getattr(info, "annotation", None))),
                 nested_fingerprint,
             )
         )
-- 
2.43.0


From cac318f221b0c30f790ab2b58010b5a1ce238ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 19/87] fix: positions between -1 and 0 degrees lost their sign
 in degrees:minutes:seconds

---
 mt_metadata/utils/location_helpers.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..aa3745c 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -26,12 +26,9 @@ def convert_position_float2str(position: float | int) -> str:
         logger.error(msg)
         raise TypeError(msg)
 
-    deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
-
-    deg = abs(deg)
+    # positions between -1 and 0 have 0 degrees, so the sign is kept apart
+    sign = "-" if position < 0 else ""
+    deg = abs(int(position))
     minutes = (abs(position) - deg) * 60.0
     # need to round seconds to 4 decimal places otherwise machine precision
     # keeps the 60 second roll over and the string is incorrect.
@@ -44,7 +41,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +89,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From bedece5af536ebbe91d6c8d3e7bac4ac49af3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 20/87] fix: survey id was not written to EMTF XML when the
 survey has no geographic name

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..6886a93 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -868,7 +868,7 @@ class EMTFXML:
         """
         self.description = sm.summary
         self.site.project = sm.project
-        if sm.geographic_name is None:
+        if sm.geographic_name in NULL_VALUES:
             self.site.survey = sm.id
         else:
             self.site.survey = sm.geographic_name
-- 
2.43.0


From 6c54078f6eb5b775c70befa42e8c6a2cbf399e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 21/87] fix: read EMTF XML with a single period

---
 .../transfer_functions/io/emtfxml/metadata/data.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..faa5db4 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,17 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        # a file with a single period has a dictionary instead of a list
+        blocks = root_dict["data"]["period"]
+        if not isinstance(blocks, list):
+            blocks = [blocks]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(blocks)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(blocks):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-- 
2.43.0


From 5962ee205c1412650e33b494ec29978d9f64c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 22/87] fix: read EDI with a single frequency

---
 mt_metadata/transfer_functions/io/edi/edi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index b909773..b06b15d 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -250,7 +250,7 @@ class EDI:
         frequency.
 
         """
-        if self.frequency is not None:
+        if self.frequency is not None and len(self.frequency) > 1:
             if self.frequency[0] < self.frequency[1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
-- 
2.43.0


From 3edff79ea1bd96058c7f3ad839d700a0c802816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 23/87] fix: zeros in a transfer function became 1E32 in EMTF
 XML

---
 .../transfer_functions/io/emtfxml/metadata/data.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index faa5db4..4ecd7bd 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -389,13 +389,15 @@ class TransferFunction(MetadataBase):
             if self.array_dict[key].size == 0:
                 logger.debug(f"No data for {key}, skipping.")
                 continue
-            arr = np.nan_to_num(self.array_dict[key][index])
+            arr = np.array(self.array_dict[key][index])
 
-            # set zeros to empty value of 1E32
+            # set missing values to empty value of 1E32, zero is a value
+            missing = np.isnan(arr)
+            arr = np.nan_to_num(arr)
             if arr.dtype == complex:
-                arr[np.where(arr == 0)] = 1e32 + 1e32j
+                arr[missing] = 1e32 + 1e32j
             else:
-                arr[np.where(arr == 0)] = 1e32
+                arr[missing] = 1e32
 
             attr_dict = {
                 "type": self._dtype_dict[arr.dtype.name],
-- 
2.43.0


From f1a4289734a9aaab305e66b5ceb6ff858f9b1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 24/87] fix: update channel nomenclature from another object

---
 mt_metadata/processing/aurora/channel_nomenclature.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/aurora/channel_nomenclature.py b/mt_metadata/processing/aurora/channel_nomenclature.py
index 20b0851..6944dca 100644
--- a/mt_metadata/processing/aurora/channel_nomenclature.py
+++ b/mt_metadata/processing/aurora/channel_nomenclature.py
@@ -198,10 +198,15 @@ class ChannelNomenclature(MetadataBase):
             msg = f"channel mt_system {self.keyword} unknown)"
             raise NotImplementedError(msg)
 
-    def update(self) -> None:
+    def update(self, other=None, match: list[str] = []) -> None:
         """
         Assign values to standard channel names "ex", "ey" etc based on channel_map dict
+
+        If another object is given, update the attribute values from it.
         """
+        if other is not None:
+            super().update(other, match=match)
+            return
         channel_map = self.get_channel_map()
         self.ex = channel_map["ex"]  # type: ignore
         self.ey = channel_map["ey"]  # type: ignore
-- 
2.43.0


From 6b631485e73926721280cb349592998eead70138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 25/87] fix: data quality warnings load comments saved as a
 dictionary

---
 .../io/emtfxml/metadata/data_quality_warnings.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_quality_warnings.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_quality_warnings.py
index e367fdb..8884bb8 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_quality_warnings.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_quality_warnings.py
@@ -47,6 +47,8 @@ class DataQualityWarnings(MetadataBase):
             return v
         elif isinstance(v, str):
             return Comment(value=v)  # type: ignore
+        elif isinstance(v, dict) and set(v) <= set(Comment.model_fields):
+            return Comment(**v)  # type: ignore
         elif v is None:
             return Comment()  # type: ignore
         else:
-- 
2.43.0


From 461b1d81a8cd7af8e201c71bf4eaa00ec5ecc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 26/87] fix: z-file channel loads its own saved dictionary

---
 mt_metadata/transfer_functions/io/zfiles/metadata/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
index 37c52ae..25f31b0 100644
--- a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
+++ b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
@@ -125,6 +125,9 @@ class Channel(MetadataBase):
         """
         fill attributes from a dictionary
         """
+        # the dictionary written by to_dict is wrapped in the class name
+        if isinstance(channel_dict.get("channel"), dict):
+            channel_dict = channel_dict["channel"]
 
         for key, value in channel_dict.items():
             if key in ["azm", "azimuth", "measurement_azimuth"]:
-- 
2.43.0


From 031fa24fbfb0bb4cc400bbbb018c39257b36bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 27/87] fix: decimation accepts its short time fourier
 transform as a dictionary

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..75fe356 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -105,6 +105,8 @@ class Decimation(MetadataBase):
     def validate_short_time_fourier_transform(
         cls, value: ShortTimeFourierTransform, info: ValidationInfo
     ) -> ShortTimeFourierTransform:
+        if isinstance(value, dict):
+            value = ShortTimeFourierTransform(**value)
         if not isinstance(value, ShortTimeFourierTransform):
             msg = f"Input must be metadata ShortTimeFourierTransform not {type(value)}"
             raise TypeError(msg)
-- 
2.43.0


From 23bb83aea500fca9aff2852e209fccd69b83203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 28/87] fix: order of Fourier coefficient channels no longer
 depends on set iteration

---
 .../processing/fourier_coefficients/decimation.py    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 75fe356..f9d8eaa 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -202,7 +202,11 @@ class Decimation(MetadataBase):
         )
 
         # Find channels that are estimated but don't exist in channels ListDict
-        missing_channels = estimated_channel_names - existing_channel_names
+        missing_channels = [
+            name
+            for name in dict.fromkeys(channels_estimated or [])
+            if name not in existing_channel_names
+        ]
 
         # Create FCChannel objects for missing channels
         for channel_name in missing_channels:
@@ -211,11 +215,13 @@ class Decimation(MetadataBase):
             channels.append(new_channel)
 
         # Find channels in ListDict that aren't in channels_estimated and add them
-        extra_channels = existing_channel_names - estimated_channel_names
+        extra_channels = [
+            name for name in channels.keys() if name not in estimated_channel_names
+        ]
         if extra_channels:
             logger.info(f"Adding channels to channels_estimated: {extra_channels}")
             # Add the extra channel names to channels_estimated
-            self.channels_estimated.extend(list(extra_channels))
+            self.channels_estimated.extend(extra_channels)
 
         return self
 
-- 
2.43.0


From 86ab9d6bd8c56172b66fad0b97ee8373a3502ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 29/87] fix: poles and zeros were lost when a filter was loaded
 from JSON

---
 mt_metadata/base/helpers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..0b5288d 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -540,6 +540,13 @@ def write_block(key, field_info: FieldInfo, c1=45, c2=45, c3=15):
     return lines
 
 
+def is_complex_dict(value):
+    """
+    True if value is how NumpyEncoder writes an array of complex numbers
+    """
+    return isinstance(value, dict) and set(value.keys()) == {"real", "imag"}
+
+
 # code to convert ini_dict to flattened dictionary
 # default seperater '_'
 def flatten_dict(meta_dict, parent_key=None, sep="."):
@@ -561,7 +568,7 @@ def flatten_dict(meta_dict, parent_key=None, sep="."):
             new_key = f"{parent_key}{sep}{key}"
         else:
             new_key = key
-        if isinstance(value, MutableMapping):
+        if isinstance(value, MutableMapping) and not is_complex_dict(value):
             items.extend(flatten_dict(value, new_key, sep=sep).items())
         else:
             items.append((new_key, value))
@@ -1137,6 +1144,12 @@ def object_to_array(value, dtype=float):
         return np.array(value, dtype=dtype)
     elif isinstance(value, np.ndarray):
         return value.astype(dtype)
+    elif is_complex_dict(value):
+        # how complex arrays are written to JSON, see NumpyEncoder
+        return (
+            np.array(value["real"], dtype=float)
+            + 1j * np.array(value["imag"], dtype=float)
+        ).astype(dtype)
     elif isinstance(value, str):
         if value in ["", "none", "None"]:
             return np.empty(0)
-- 
2.43.0


From f9744414d98c74a96bca304a50b2b5b732984e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 30/87] fix: arrays that contain a zero were left out of
 to_dict

---
 mt_metadata/base/metadata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index a646a68..6e543ce 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1122,10 +1122,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
-- 
2.43.0


From d6581af37d499dc7ff12d92bbf91d203e4591036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 31/87] fix: write filters and paths to XML

---
 mt_metadata/base/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 0b5288d..d3f13f6 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -768,6 +768,10 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
 
             sub_element = et.SubElement(element, key)
             recursive_split_xml(sub_element, value, attr_name, key, attr_dict)
+    elif isinstance(item, np.ndarray):
+        for ii in item.flatten().tolist():
+            sub_element = et.SubElement(element, "item")
+            sub_element.text = str(ii)
     elif isinstance(item, (tuple, list)):
         for ii in item:
             sub_element = et.SubElement(element, "item")
@@ -777,7 +781,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, Path)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
-- 
2.43.0


From 86f3faea71fba9dc6a499b7fda7bee3f4423848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 32/87] fix: lists of one item read from XML

---
 mt_metadata/base/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index d3f13f6..15e381c 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -840,7 +840,7 @@ def element_to_dict(element):
             element.tag: {k: v[0] if len(v) == 1 else v for k, v in child_dict.items()}
         }
         if "item" in meta_dict[element.tag].keys():
-            meta_dict[element.tag] = meta_dict[element.tag]["item"]
+            meta_dict[element.tag] = child_dict["item"]
     # going to skip attributes for now, later can check them against
     # standards, neet to skip units and type
     if element.attrib:
-- 
2.43.0


From de9166d9f5bb08786bc29cfe20b3d460f8c58d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 33/87] fix: empty XML elements are values that were not set

---
 mt_metadata/base/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 6e543ce..c24f37e 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1383,4 +1383,5 @@ class MetadataBase(DotNotationBaseModel):
         via the from_dict method.
         """
 
-        self.from_dict(helpers.element_to_dict(xml_element))
+        # an empty element stands for a value that was not set
+        self.from_dict(helpers.element_to_dict(xml_element), skip_none=True)
-- 
2.43.0


From 17b1676714229758d68a10280f5538f58164cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 34/87] fix: from_dict with skip_none failed on arrays

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index c24f37e..c1d4d8c 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1207,7 +1207,7 @@ class MetadataBase(DotNotationBaseModel):
             meta_dict = helpers.flatten_dict(meta_dict)
         # set attributes by key.
         for name, value in meta_dict.items():
-            if skip_none:
+            if skip_none and not isinstance(value, np.ndarray):
                 if value in NULL_VALUES:
                     continue
             self.update_attribute(name, value)
-- 
2.43.0


From cb878113530ea85d1039aad8c6e2ad2faa9f8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 35/87] fix: to_series turned None into NaN

---
 mt_metadata/base/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index c1d4d8c..8ce468c 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1324,7 +1324,8 @@ class MetadataBase(DotNotationBaseModel):
 
         """
 
-        return pd.Series(self.to_dict(single=True, required=required))
+        # keep the type of each value, a common one would turn None into NaN
+        return pd.Series(self.to_dict(single=True, required=required), dtype=object)
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
         """
-- 
2.43.0


From a8c38afb05c8117740e1306fafa0fd2010f83a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 36/87] fix: funding source without a url can be loaded again

---
 mt_metadata/common/funding_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index ee48ccc..b5e97c3 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -133,7 +133,7 @@ class FundingSource(MetadataBase):
         elif isinstance(value, str):
             return [item.strip() for item in value.split(",")]
 
-        elif value is None:
+        elif value in [None, ""]:
             return None
 
         else:
-- 
2.43.0


From 77cf6a60b193b683b43418b533227c9f2b56c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 37/87] fix: decimation levels given as a list of objects were
 stored twice

---
 mt_metadata/processing/aurora/processing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
-- 
2.43.0


From e496fce493ddbb4dc357410c21bc69e48db9435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 38/87] fix: z-file channel from_dict accepts skip_none

---
 mt_metadata/transfer_functions/io/zfiles/metadata/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
index 25f31b0..83fa1dc 100644
--- a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
+++ b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
@@ -121,7 +121,7 @@ class Channel(MetadataBase):
         else:
             return None
 
-    def from_dict(self, channel_dict):
+    def from_dict(self, channel_dict, skip_none=False):
         """
         fill attributes from a dictionary
         """
@@ -130,6 +130,8 @@ class Channel(MetadataBase):
             channel_dict = channel_dict["channel"]
 
         for key, value in channel_dict.items():
+            if skip_none and value in [None, ""]:
+                continue
             if key in ["azm", "azimuth", "measurement_azimuth"]:
                 self.azimuth = value
             elif key in ["chn_num", "number"]:
-- 
2.43.0


From 5b6d7d140cc20ca9ac016f72b2bf3ed63b371542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 39/87] fix: keep dotted entries of a dictionary wrapped in its
 class name

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 8ce468c..c63c1fd 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -88,7 +88,7 @@ class DotNotationBaseModel(BaseModel):
                     if isinstance(value, dict):
                         # If the value is a dict, we need to flatten it
                         for nested_key, nested_value in value.items():
-                            if isinstance(nested_value, dict):
+                            if "." in nested_key or isinstance(nested_value, dict):
                                 # Flatten nested dicts
                                 self._set_nested_attribute(
                                     nested_data, nested_key, nested_value
-- 
2.43.0


From 781bfb48913c22e7967b823bf0b6256640944f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 40/87] fix: a dictionary with one nested attribute is not one
 wrapped in a class name

---
 mt_metadata/base/metadata.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index c63c1fd..3d5f069 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1188,9 +1188,14 @@ class MetadataBase(DotNotationBaseModel):
             raise MTSchemaError(msg)
         keys = list(meta_dict.keys())
         if len(keys) == 1:
-            if isinstance(meta_dict[keys[0]], (dict, OrderedDict)):
-                class_name = keys[0]
-                if class_name.lower() != validate_name(self.__class__.__name__):
+            class_name = keys[0]
+            is_own_name = class_name.lower() == validate_name(self.__class__.__name__)
+            # a single nested attribute is not the name of the class
+            is_attribute = class_name in type(self).model_fields and not is_own_name
+            if not is_attribute and isinstance(
+                meta_dict[class_name], (dict, OrderedDict)
+            ):
+                if not is_own_name:
                     msg = (
                         "name of input dictionary is not the same as class type "
                         f"input = {class_name}, class type = {self.__class__.__name__}"
-- 
2.43.0


From b8dca0abe5d74d6dbaa801dff98f2b31b9979f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 41/87] fix: leave out empty XML elements inside lists

---
 mt_metadata/base/helpers.py  | 16 ++++++++++++++++
 mt_metadata/base/metadata.py |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 15e381c..bb787f1 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -884,6 +884,22 @@ def element_to_dict(element):
     return OrderedDict(sorted(meta_dict.items(), key=itemgetter(0)))
 
 
+def drop_unset(value):
+    """
+    Leave out the entries that were empty XML elements, at any depth.
+
+    :param value: dictionary, or a part of one, as read by `element_to_dict`
+    :return: the same without entries that are None
+    """
+    if isinstance(value, dict):
+        return OrderedDict(
+            (k, drop_unset(v)) for k, v in value.items() if v is not None
+        )
+    if isinstance(value, list):
+        return [drop_unset(v) for v in value]
+    return value
+
+
 def element_to_string(element):
     return (
         minidom.parseString(et.tostring(element).decode())
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 3d5f069..9c12dd7 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1390,4 +1390,5 @@ class MetadataBase(DotNotationBaseModel):
         """
 
         # an empty element stands for a value that was not set
-        self.from_dict(helpers.element_to_dict(xml_element), skip_none=True)
+        meta_dict = helpers.drop_unset(helpers.element_to_dict(xml_element))
+        self.from_dict(meta_dict, skip_none=True)
-- 
2.43.0


From 0196804cc459e16bf3bb43762e602dec7e114207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 42/87] fix: funding source with an empty url, email or name

---
 mt_metadata/common/funding_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index b5e97c3..a0ecdd8 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -124,7 +124,10 @@ class FundingSource(MetadataBase):
             _description_
         """
 
-        if isinstance(value, (list, tuple)):
+        if value is None or (isinstance(value, str) and not value.strip()):
+            return None
+
+        elif isinstance(value, (list, tuple)):
             return list(value)
 
         elif isinstance(value, (EmailStr, AnyHttpUrl)):
-- 
2.43.0


From 6c89736fc250562a604e3f8e70bc18d46284b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 43/87] fix: an interrupted lookup never leaves the sentinel
 behind

---
 mt_metadata/base/pydantic_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 3fa2d31..d27c9e4 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -135,11 +135,11 @@ def get_all_fields_serializable(
             # Sentinel to break cycles
             _FIELDS_TREE_CACHE[model_cls] = {}
             tree = _compute_fields_tree(model_cls)
+            _FIELDS_TREE_CACHE[model_cls] = tree
         except BaseException:
             # do not leave the sentinel behind as if it were the answer
             _FIELDS_TREE_CACHE.pop(model_cls, None)
             raise
-        _FIELDS_TREE_CACHE[model_cls] = tree
 
         if not _DISABLE_DISK_CACHE:
             _save_fields_to_disk(model_cls, tree)
-- 
2.43.0


From 0d7ea1b1729bf692d0d9fdbc66ee5c2f276839fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 44/87] fix: blank funding source entries read as unset

---
 mt_metadata/common/funding_source.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index a0ecdd8..f7f210f 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -136,8 +136,5 @@ class FundingSource(MetadataBase):
         elif isinstance(value, str):
             return [item.strip() for item in value.split(",")]
 
-        elif value in [None, ""]:
-            return None
-
         else:
             raise TypeError(f"Cannot form a list from types {type(value)}.")
-- 
2.43.0


From 433ccfb2d5a3b32242d8170654798cbef75855eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 45/87] fix: removed runs and channels came back from the lists
 of names

Station.run_list, Station.channels_recorded and the lists of a run made
placeholders again for members that had been removed, on the next assignment
of anything. Only names new to a list make placeholders; the electric list
of a new run no longer swallows the magnetic and auxiliary ones.
---
 mt_metadata/timeseries/run.py     | 37 +++++++++++++++++--------
 mt_metadata/timeseries/station.py | 45 ++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..77ad681 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -13,6 +13,7 @@ from pydantic import (
     Field,
     field_validator,
     model_validator,
+    PrivateAttr,
     ValidationInfo,
 )
 from typing_extensions import Self
@@ -33,6 +34,9 @@ from mt_metadata.timeseries import Auxiliary, DataLogger, Electric, Magnetic
 
 
 class Run(MetadataBase):
+    # names of the channels when the lists were last validated
+    _listed_channels: set = PrivateAttr(default_factory=set)
+
     channels_recorded_auxiliary: Annotated[
         list[str],
         Field(
@@ -302,17 +306,28 @@ class Run(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        # need to make each another object list() otherwise the contents
-        # get overwritten with the new channel.
-        for electric in list(self.channels_recorded_electric):
-            if electric not in self.channels.keys():
-                self.add_channel(Electric(component=electric))  # type: ignore
-        for magnetic in list(self.channels_recorded_magnetic):
-            if magnetic not in self.channels.keys():
-                self.add_channel(Magnetic(component=magnetic))  # type: ignore
-        for auxiliary in list(self.channels_recorded_auxiliary):
-            if auxiliary not in self.channels.keys():
-                self.add_channel(Auxiliary(component=auxiliary))  # type: ignore
+        # all names are collected first, adding a channel updates the lists.
+        recorded = [
+            (names, channel_class, list(names))
+            for names, channel_class in (
+                (self.channels_recorded_electric, Electric),
+                (self.channels_recorded_magnetic, Magnetic),
+                (self.channels_recorded_auxiliary, Auxiliary),
+            )
+        ]
+        new_channels = []
+        for names, channel_class, components in recorded:
+            for component in components:
+                if component in self.channels.keys():
+                    continue
+                if component in self._listed_channels:
+                    # has been removed from channels since it was listed
+                    names.remove(component)
+                else:
+                    new_channels.append(channel_class(component=component))
+        for channel in new_channels:
+            self.add_channel(channel)
+        self._listed_channels = set(self.channels.keys())
         return self
 
     @field_validator("channels", mode="before")
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..dd1b7a1 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -6,7 +6,13 @@ from typing import Annotated
 
 import numpy as np
 from loguru import logger
-from pydantic import Field, field_validator, model_validator, ValidationInfo
+from pydantic import (
+    Field,
+    field_validator,
+    model_validator,
+    PrivateAttr,
+    ValidationInfo,
+)
 from typing_extensions import Self
 
 from mt_metadata import NULL_VALUES
@@ -29,6 +35,10 @@ from mt_metadata.timeseries import Run
 
 
 class Station(MetadataBase):
+    # names of the runs and channels when the lists were last validated
+    _listed_runs: set = PrivateAttr(default_factory=set)
+    _listed_channels: set = PrivateAttr(default_factory=set)
+
     channel_layout: Annotated[
         ChannelLayoutEnum,
         Field(
@@ -264,24 +274,29 @@ class Station(MetadataBase):
         Validate that the value is a list of strings.
         """
 
-        # need to make each another object list() otherwise the contents
-        # get overwritten with the new channel.
+        # names that are new in the lists are added as placeholders, names of
+        # runs and channels that have been removed are taken off the lists.
         if self.run_list != list(self.runs.keys()):
-            if len(self.run_list) > len(self.runs.keys()):
-                for run_id in self.run_list:
-                    if run_id not in self.runs.keys():
-                        self.runs.append(Run(id=run_id))
-            else:
-                self.update_all()
+            for run_id in self.run_list:
+                if run_id not in self.runs.keys() and run_id not in self._listed_runs:
+                    self.runs.append(Run(id=run_id))
+            self.update_all()
+        self._listed_runs = set(self.runs.keys())
+
         estimate_channels_recorded = self._get_channels_recorded()
         if self.channels_recorded != estimate_channels_recorded:
-            if len(self.channels_recorded) > len(estimate_channels_recorded):
-                if len(self.runs) > 0:
-                    for channel in self.channels_recorded:
-                        if channel not in estimate_channels_recorded:
-                            self.runs[0].add_channel(channel)
-            else:
+            new_channels = [
+                channel
+                for channel in self.channels_recorded
+                if channel.lower() not in estimate_channels_recorded
+                and channel.lower() not in self._listed_channels
+            ]
+            # new channels have to wait for the first run
+            if len(self.runs) > 0 or len(new_channels) == 0:
+                for channel in new_channels:
+                    self.runs[0].add_channel(channel)
                 self.update_channels_recorded()
+        self._listed_channels = set(self._get_channels_recorded())
         return self
 
     @model_validator(mode="after")
-- 
2.43.0


From f4e8cfbe5643487cc3acada08071e41960e6aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 46/87] fix: frequency response tables in a list of survey
 filters were refused

---
 mt_metadata/timeseries/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..764deab 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -459,7 +459,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
-- 
2.43.0


From 039473e7a0bba2a593bac3ffd3214deff59d8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 47/87] fix: experiments that could not be read back from XML

Surveys without stations and stations without runs, surveys without filters,
filters next to the empty element that required=False writes, FIR filters;
lists of names made placeholder runs that the runs were merged into; time
periods of surveys were written before those of their stations were known.
---
 mt_metadata/timeseries/experiment.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 8f427ac..df45b54 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -385,21 +385,27 @@ class Experiment(MetadataBase):
         if sort:
             self.surveys.sort()
         for survey in self.surveys:
+            # the time periods follow from the members, lowest level first
+            for station in survey.stations:
+                for run in station.runs:
+                    run.update_time_period()
+                station.update_time_period()
             survey.update_bounding_box()
             survey.update_time_period()
             survey_element = survey.to_xml(required=required)
-            filter_element = et.SubElement(survey_element, "filters")
+            # the survey's own empty element is there if not required
+            filter_element = survey_element.find("filters")
+            if filter_element is None:
+                filter_element = et.SubElement(survey_element, "filters")
             for key, value in survey.filters.items():
                 filter_element.append(value.to_xml(required=required))
             if sort:
                 survey.stations.sort()
             for station in survey.stations:
-                station.update_time_period()
                 station_element = station.to_xml(required=required)
                 if sort:
                     station.runs.sort()
                 for run in station.runs:
-                    run.update_time_period()
                     run_element = run.to_xml(required=required)
                     if sort:
                         run.channels.sort()
@@ -461,15 +467,22 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            # filters are read according to their kind
+            filter_dict = self._read_filter_dict(
+                survey_dict["survey"].pop("filters", None)
+            )
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
-            filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
             for station_dict in stations:
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
+                if runs:
+                    # the lists follow from the runs, otherwise placeholders
+                    # would be made for them
+                    station_dict.pop("run_list", None)
+                    station_dict.pop("channels_recorded", None)
                 station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
@@ -508,7 +521,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
@@ -597,7 +610,7 @@ class Experiment(MetadataBase):
                     mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
-- 
2.43.0


From d62cd2f7a4fbffbc068e1ffea4b60964fd923121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 48/87] fix: a copied ListDict keeps every key and shares no
 list or dictionary with its original

---
 mt_metadata/common/list_dict.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index d4aa581..f167eb0 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -9,6 +9,7 @@ Created on Wed Nov 16 11:08:25 2022
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from copy import deepcopy
 
 # =============================================================================
 
@@ -97,9 +98,13 @@ class ListDict:
         """
         copied = type(self)()
         for key, value in self.items():
-            if hasattr(value, "copy"):
+            if isinstance(value, (list, dict, set)):
+                # the copy method of these is shallow
+                value = deepcopy(value)
+            elif hasattr(value, "copy"):
                 value = value.copy()
-            copied[key] = value
+            # keys are kept as they are, also those that are not strings
+            copied._home[key] = value
 
         return copied
 
-- 
2.43.0


From 9493d8cfeb8be2db786a9e5a77926203af575b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 49/87] fix: field descriptions handed out by one object are
 not those of every other

---
 mt_metadata/base/pydantic_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index d27c9e4..b16f6df 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -183,7 +183,11 @@ def flatten_field_tree_map(
 
         # Leaf: field summary dicts have "__field__": True
         if isinstance(node, dict) and node.get("__field__") is True:
-            out[path] = node
+            # a copy, the tree is shared by every object of the class
+            out[path] = {
+                key: value.copy() if isinstance(value, (list, dict)) else value
+                for key, value in node.items()
+            }
             continue
 
         # Nested: recurse into sub-dicts that are not leaf summaries
-- 
2.43.0


From a4229c1a7cfd7720a9f84750ca81e63f228c6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 50/87] fix: a StationXML file that could not be written is
 reported

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..ac57a34 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -175,7 +175,9 @@ class XMLInventoryMTExperiment:
         if stationxml_fn:
             if isinstance(stationxml_fn, Path):
                 stationxml_fn = stationxml_fn.as_posix()
-            xml_inventory.write(stationxml_fn, "stationxml", nsmap=ns_dict)
+            # given a file name the XML writer does not report a disk that fails
+            with open(stationxml_fn, "wb") as fid:
+                xml_inventory.write(fid, "stationxml", nsmap=ns_dict)
         return xml_inventory
 
     def add_run(self, xml_station, mt_run, filters_dict):
-- 
2.43.0


From f93879e3c8773d34404e6f49f93fd2940a7bbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 51/87] fix: an EDI block cut after its first value is refused,
 not repeated for every frequency

---
 mt_metadata/transfer_functions/io/edi/edi.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index b06b15d..b71193c 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -392,6 +392,16 @@ class EDI:
             data_dict[key] = np.array(k_list)
         # fill useful arrays
         self.frequency = data_dict["freq"]
+        # a block that was cut after its first value must not be repeated for
+        # every frequency
+        for key, values in data_dict.items():
+            if values.size == 1 != self.frequency.size and not key.endswith("rot"):
+                msg = (
+                    f"EDI block >{key.upper()} has 1 value, "
+                    f"expected {self.frequency.size}: {self.fn}"
+                )
+                self.logger.error(msg)
+                raise ValueError(msg)
         self.z = np.zeros((self.frequency.size, 2, 2), dtype=complex)
         self.z_err = np.zeros((self.frequency.size, 2, 2), dtype=float)
         # fill tipper data if there it exists
-- 
2.43.0


From 690d39131df592beafeaf39ef67eca040539c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 52/87] fix: a run read from StationXML by its list of runs has
 its sample rate

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index ac57a34..8ce0173 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -90,6 +90,8 @@ class XMLInventoryMTExperiment:
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
                             mt_run.add_channel(run_channel)
+                            if not mt_run.sample_rate:
+                                mt_run.sample_rate = run_channel.sample_rate
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
-- 
2.43.0


From b1be43f01545cfc43073070a188a121e4dfb44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 53/87] fix: channel epochs with different filters are not
 merged in StationXML

---
 .../stationxml/xml_inventory_mt_experiment.py        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 8ce0173..aa4053f 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -297,4 +297,16 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.dip, 2)} != {round(xml_channel_02.dip, 2)}"
             )
             return False
+        filters_01 = self._get_stage_names(xml_channel_01)
+        filters_02 = self._get_stage_names(xml_channel_02)
+        if filters_01 != filters_02:
+            self.logger.debug(f"{filters_01} != {filters_02}")
+            return False
         return True
+
+    @staticmethod
+    def _get_stage_names(xml_channel):
+        """names of the filters of a channel, in the order they are applied"""
+        if xml_channel.response is None:
+            return []
+        return [stage.name for stage in xml_channel.response.response_stages]
-- 
2.43.0


From 4d5bcfc700b94f7feed8d8a2689f4a2135159d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 54/87] fix: a filter's comment is written as text to
 StationXML

---
 mt_metadata/timeseries/filters/filter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 143f20f..7091b86 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -282,7 +282,7 @@ class FilterBase(MetadataBase):
         if self.comments.value is None:
             return filter_descriptions[self.type]
 
-        return self.comments
+        return self.comments.value
 
     @requires(obspy=obspy_import)
     @classmethod
-- 
2.43.0


From 44d8980089c7f9cf6626a2c6cd074fc2c8a333bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 55/87] fix: FIR filters written to StationXML can be read back

---
 mt_metadata/timeseries/filters/fir_filter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..53db6d8 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -228,13 +228,18 @@ class FIRFilter(FilterBase):
             self.units_in_object.symbol,
             self.units_out_object.symbol,
             coefficients=self.coefficients.tolist(),
-            symmetry=self.symmetry,
+            symmetry=SymmetryEnum(self.symmetry).value,
             name=self.name,
             description=self.get_filter_description(),
             input_units_description=self.units_in_object.name,
             output_units_description=self.units_out_object.name,
             decimation_input_sample_rate=self.decimation_input_sample_rate,
-            decimation_factor=self.decimation_factor,
+            # StationXML only knows whole decimation factors
+            decimation_factor=(
+                int(self.decimation_factor)
+                if float(self.decimation_factor).is_integer()
+                else self.decimation_factor
+            ),
         )
 
         return rs
-- 
2.43.0


From 888823ee4e739c1d46e37aecd0878d9ef57a0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 56/87] fix: a decimation filter keeps its name when read again

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..d3116bf 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -531,7 +531,9 @@ class XMLChannelMTChannel(BaseTranslator):
 
             if mt_filter.decimation_active:
                 # keep filter names unique if same one used more than once
-                mt_filter.name += f"_{mt_filter.decimation_input_sample_rate}"
+                rate_suffix = f"_{mt_filter.decimation_input_sample_rate}"
+                if not mt_filter.name.endswith(rate_suffix):
+                    mt_filter.name += rate_suffix
 
             if new_and_unnamed:
                 logger.info(f"Found an unnamed filter, named it: '{mt_filter.name}'")
-- 
2.43.0


From eb65220bacbb45db8f24ebace6ca0bf8a18c460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 57/87] fix: a keyed list loses no member when names are
 missing or clash

---
 mt_metadata/common/list_dict.py | 55 ++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index f167eb0..2951d02 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -87,6 +87,20 @@ class ListDict:
         else:
             raise TypeError("could not identify an appropriate key from object")
 
+    def _get_free_key(self, index):
+        """
+        Get a key that is not in use, for objects that do not have one
+
+        :param index: number to start from
+        :type index: integer
+        :return: first number, as a string, that is not a key
+        :rtype: string
+
+        """
+        while str(index) in self._home:
+            index += 1
+        return str(index)
+
     def __deepcopy__(self, memodict={}):
         """
         Need to skip copying the logger
@@ -177,7 +191,7 @@ class ListDict:
                 try:
                     key = self._get_key_from_object(value)
                 except TypeError:
-                    key = str(index)
+                    key = self._get_free_key(index)
 
             self._home[key] = value
 
@@ -212,7 +226,7 @@ class ListDict:
         try:
             key = self._get_key_from_object(obj)
         except TypeError:
-            key = str(len(self.keys()))
+            key = self._get_free_key(len(self))
 
         self._home[key] = obj
 
@@ -311,29 +325,40 @@ class ListDict:
         Update all keys in the ListDict based on the current state of the objects.
 
         This is useful when object IDs have been changed after being added to the ListDict.
-        The method will re-key all objects using their current ID values.
+        The method will re-key all objects using their current ID values.  An
+        object whose ID is the key of another object keeps its old key.
 
         Returns
         -------
         dict
             A dictionary mapping old keys to new keys for objects that were re-keyed.
         """
-        updates = {}
-        new_home = OrderedDict()
-
+        new_keys = {}
         for old_key, obj in self._home.items():
             try:
-                new_key = self._get_key_from_object(obj)
+                new_keys[old_key] = self._get_key_from_object(obj)
             except TypeError:
                 # If we can't get a key from the object, keep the old key
-                new_key = old_key
-
-            if old_key != new_key:
-                updates[old_key] = new_key
-
-            new_home[new_key] = obj
-
-        self._home = new_home
+                new_keys[old_key] = old_key
+
+        # no object is lost if a key would be used twice
+        clash = True
+        while clash:
+            clash = False
+            used = {old: new for old, new in new_keys.items() if old == new}
+            for old_key, new_key in new_keys.items():
+                if old_key == new_key:
+                    continue
+                if new_key in used:
+                    new_keys[old_key] = old_key
+                    clash = True
+                    break
+                used[new_key] = old_key
+
+        updates = {old: new for old, new in new_keys.items() if old != new}
+        self._home = OrderedDict(
+            (new_keys[old_key], obj) for old_key, obj in self._home.items()
+        )
         return updates
 
     def to_dict(self, single=False, nested=False, required=False) -> None:
-- 
2.43.0


From 71115347d59c64db0b9f115e008ca5e82b1760f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 58/87] fix: a keyed list can be compared with anything

---
 mt_metadata/common/list_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 2951d02..cdddcec 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -51,6 +51,8 @@ class ListDict:
         return f"ListDict({items_str})"
 
     def __eq__(self, other):
+        if not isinstance(other, ListDict):
+            return NotImplemented
         return self._home.__eq__(other._home)
 
     def __len__(self):
-- 
2.43.0


From 2d071cbe17bdb8d1c49f9287a187a67b94862796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 59/87] fix: the list of runs follows when runs are sorted or
 renamed

---
 mt_metadata/timeseries/experiment.py |  2 ++
 mt_metadata/timeseries/run.py        |  8 ++++----
 mt_metadata/timeseries/station.py    | 10 +++++-----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index df45b54..13c8555 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -405,6 +405,7 @@ class Experiment(MetadataBase):
                 station_element = station.to_xml(required=required)
                 if sort:
                     station.runs.sort()
+                    station.update_run_list()
                 for run in station.runs:
                     run_element = run.to_xml(required=required)
                     if sort:
@@ -638,6 +639,7 @@ class Experiment(MetadataBase):
                 survey.stations.sort()
                 for station in survey.stations:
                     station.runs.sort()
+                    station.update_run_list()
                     for run in station.runs:
                         run.channels.sort()
 
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77ad681..623a1a1 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -618,9 +618,7 @@ class Run(MetadataBase):
 
         """
 
-        if component in [cc for cc in self.channels_recorded_all]:
-            return True
-        return False
+        return component in self.channels.keys()
 
     def channel_index(self, component: str) -> int | None:
         """
@@ -897,7 +895,9 @@ class Run(MetadataBase):
         get_channel : Access channels by component
 
         """
-        return self.channels.update_keys()
+        updates = self.channels.update_keys()
+        self._update_channels_recorded()
+        return updates
 
     @property
     def n_channels(self) -> int:
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index dd1b7a1..12cd36c 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -383,9 +383,7 @@ class Station(MetadataBase):
         :rtype: boolean
 
         """
-        if run_id in self.run_list:
-            return True
-        return False
+        return run_id in self.runs.keys()
 
     def run_index(self, run_id):
         """
@@ -399,7 +397,7 @@ class Station(MetadataBase):
         """
 
         if self.has_run(run_id):
-            return self.run_list.index(run_id)
+            return self.runs.keys().index(run_id)
         return None
 
     def _empty_channels_recorded(self):
@@ -552,7 +550,9 @@ class Station(MetadataBase):
             >>> print(key_mapping)  # {'': '001'}
             >>> # Now run can be accessed as station.runs['001']
         """
-        return self.runs.update_keys()
+        updates = self.runs.update_keys()
+        self.update_run_list()
+        return updates
 
     def sort_runs_by_time(self, inplace=True, ascending=True):
         """
-- 
2.43.0


From 37a8ed6be535661fba2e7e2d3096a06b759d731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 60/87] fix: merging runs into a new run leaves the original as
 it was

---
 mt_metadata/timeseries/run.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 623a1a1..2c18c52 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -484,12 +484,13 @@ class Run(MetadataBase):
 
         """
         if isinstance(other, Run):
+            if not inplace:
+                merged = self.copy()
+                merged.merge(other)
+                return merged
             self.channels.extend(other.channels)
             self._update_channels_recorded()
-            if inplace:
-                self.update_time_period()
-            else:
-                return self.copy()
+            self.update_time_period()
         else:
             msg = f"Can only merge Run objects, not {type(other)}"
             logger.error(msg)
-- 
2.43.0


From 2fc65aadda80cbc4885d85924d27c560b01b1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 61/87] fix: the channel type of a dictionary follows from type
 or component

---
 mt_metadata/timeseries/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 2c18c52..c8e9b9a 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1083,14 +1083,14 @@ class Run(MetadataBase):
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
             try:
-                ch_type = channel_obj["type"]
+                ch_type = channel_obj.get("type")
                 if ch_type is None:
                     ch_type = channel_obj["component"][0]
 
                 if ch_type.lower().startswith("e"):
                     return Electric(**channel_obj)
                 elif (
-                    ch_type.lower().startswith("b")
+                    ch_type.lower().startswith("h")
                     or ch_type.lower().startswith("b")
                     or ch_type.lower() in ["magnetic"]
                 ):
-- 
2.43.0


From 0fd5fd5c2363f5584ea307a92a8f4be2d3df3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 62/87] fix: runs can be sorted by time, also descending

---
 mt_metadata/timeseries/station.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 12cd36c..7aa6740 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -570,9 +570,11 @@ class Station(MetadataBase):
         run_starts = []
         for run_key, run_obj in self.runs.items():
             run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
+            run_starts.append(str(run_obj.time_period.start).split("+")[0])
 
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        index = np.argsort(np.array(run_starts, dtype=np.datetime64), kind="stable")
+        if not ascending:
+            index = index[::-1]
 
         new_runs = ListDict()
         for ii in index:
-- 
2.43.0


From 4703a5207e9d217fdc9e1cf1342b31212d2200d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 63/87] fix: unknown filter types in a list are refused with
 the reason

---
 mt_metadata/timeseries/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 764deab..45138b0 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -451,6 +451,7 @@ class Survey(MetadataBase):
                             )
                             fails.append(msg)
                             logger.error(msg)
+                            continue
                         if f_type.lower() in ["zpk"]:
                             f = PoleZeroFilter()
                         elif f_type.lower() in ["coefficient"]:
@@ -465,6 +466,7 @@ class Survey(MetadataBase):
                             msg = f"filter type {f_type} not supported."
                             fails.append(msg)
                             logger.error(msg)
+                            continue
 
                         f.from_dict(ff)
                         filters[f.name] = f
-- 
2.43.0


From 385456f705e85960a1fcb64dce13b1f64873e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 64/87] fix: adding a survey, station or run again keeps the
 new members

---
 mt_metadata/timeseries/run.py          | 15 +++++++++------
 mt_metadata/timeseries/station.py      | 22 ++++++++++++++++++++++
 mt_metadata/timeseries/survey.py       | 21 +++++++++++++++++++++
 mt_metadata/transfer_functions/core.py |  3 +--
 4 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index c8e9b9a..c7ce983 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -567,6 +567,7 @@ class Run(MetadataBase):
             or (hasattr(other, "__class__") and other.__class__.__name__ == "Run")
         ):
             logger.warning(f"Cannot update {type(self)} with {type(other)}")
+            return
         for k in match:
             if self.get_attr_from_name(k) != other.get_attr_from_name(k):
                 msg = (
@@ -575,6 +576,13 @@ class Run(MetadataBase):
                 )
                 logger.error(msg)
                 raise ValueError(msg)
+        ## Need this before channels_recorded is set, which initiates an empty
+        ## channel for every name that is new.
+        for ch in other.channels:
+            if not self.has_channel(ch.component):
+                ch = ch.copy()
+            self.add_channel(ch)
+
         for k, v in other.to_dict(single=True).items():
             if hasattr(v, "size"):
                 if v.size > 0:
@@ -582,12 +590,7 @@ class Run(MetadataBase):
             else:
                 if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
                     self.update_attribute(k, v)
-
-        ## Need this because channels are set when setting channels_recorded
-        ## and it initiates an empty channel, but we need to fill it with
-        ## the appropriate metadata.
-        for ch in other.channels:
-            self.add_channel(ch)
+        self._update_channels_recorded()
 
     def has_channel(self, component: str) -> bool:
         """
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 7aa6740..8861022 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -362,6 +362,28 @@ class Station(MetadataBase):
             logger.error(msg)
             raise TypeError(msg)
 
+    def update(self, other, match=[]):
+        """
+        Update attribute values and runs from another station
+
+        :param other: station to update from
+        :type other: :class:`mt_metadata.timeseries.Station`
+        :param match: attributes that have to be equal
+        :type match: list of strings
+
+        """
+        # runs first, names that are new in the lists are added as empty ones
+        if isinstance(other, Station) and all(
+            self.get_attr_from_name(k) == other.get_attr_from_name(k) for k in match
+        ):
+            for run_id, run in other.runs.items():
+                if self.has_run(run_id):
+                    self.runs[run_id].update(run)
+                else:
+                    self.runs[run_id] = run.copy()
+            self.update_all()
+        super().update(other, match=match)
+
     @property
     def n_runs(self) -> int:
         """
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 45138b0..a79b190 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -563,6 +563,27 @@ class Survey(MetadataBase):
             logger.error(msg)
             raise TypeError(msg)
 
+    def update(self, other: "Survey", match: list[str] = []) -> None:
+        """
+        Update attribute values, filters and stations from another survey.
+
+        Parameters
+        ----------
+        other : Survey
+            survey to update from
+        match : list of str
+            attributes that have to be equal
+        """
+        super().update(other, match=match)
+        if isinstance(other, Survey):
+            self.filters.extend({k: f.copy() for k, f in other.filters.items()})
+            for station_id, station in other.stations.items():
+                if self.has_station(station_id):
+                    self.stations[station_id].update(station)
+                else:
+                    self.stations[station_id] = station.copy()
+            self.update_all()
+
     @property
     def n_stations(self) -> int:
         """
diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 76accc6..320fc35 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -385,10 +385,9 @@ class TF:
 
         if survey_metadata is not None:
             survey_metadata = self._validate_survey_metadata(survey_metadata)
-            self._survey_metadata.update(survey_metadata)
             for station in survey_metadata.stations:
                 station.update_time_period()
-                self._survey_metadata.add_station(station)
+            self._survey_metadata.update(survey_metadata)
 
             if len(self._survey_metadata.stations.keys()) > 1:
                 if "0" in self._survey_metadata.stations.keys():
-- 
2.43.0


From b71a9fef082cd5df7b1e05372cb7a87b64fa110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 65/87] fix: MTML files of many stations are read with this
 version's channels and in a fixed order

---
 .../timeseries/tools/from_many_mt_files.py    | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 70a4461..801d4ad 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -101,7 +101,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
         Get all mtml xml files for a given station.
         """
         if self.has_xml_path():
-            return list(self.xml_path.rglob("*.xml"))
+            return sorted(self.xml_path.rglob("*.xml"))
         raise ValueError("self.xml_path must be set")
 
     def make_df(self):
@@ -268,21 +268,17 @@ class MT2StationXML(XMLInventoryMTExperiment):
         ch.from_xml(self.read_xml_file(channel_fn))
 
         dp_filter = None
-        if ch.filter.name is not None:
-            find = False
-            for ii, filter_name in enumerate(ch.filter.name):
-                # create a dipole pole zero filter
-                if "dipole" in filter_name:
-                    find = True
-                    dp_filter = PoleZeroFilter()
-                    dp_filter.units_in = "V/m"
-                    dp_filter.units_out = "V"
-                    dp_filter.gain = ch.dipole_length
-                    dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
-                    dp_filter.comments = "electric dipole for electric field"
-                    break
-            if find:
-                ch.filter.name[ii] = dp_filter.name
+        for applied_filter in ch.filters:
+            # create a dipole pole zero filter
+            if applied_filter.name and "dipole" in applied_filter.name:
+                dp_filter = PoleZeroFilter()
+                dp_filter.units_in = "V/m"
+                dp_filter.units_out = "V"
+                dp_filter.gain = ch.dipole_length
+                dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
+                dp_filter.comments = "electric dipole for electric field"
+                applied_filter.name = dp_filter.name
+                break
 
         return ch, dp_filter
 
@@ -307,6 +303,8 @@ class MT2StationXML(XMLInventoryMTExperiment):
             r.channels.append(ch)
             if dp_filter is not None:
                 dp_filters[dp_filter.name] = dp_filter
+        r._update_channels_recorded()
+        r.update_time_period()
 
         return r, dp_filters
 
@@ -356,7 +354,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
             station.runs.append(r)
             dp_filters.update(dp)
 
-        station.update_time_period()
+        station.update_all()
 
         return station, dp_filters
 
@@ -453,7 +451,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
 
         filter_dict = self._make_filters_dict(filters_fn)
         if dp_filter is not None:
-            filter_dict.update({dp_filter.name, dp_filter})
+            filter_dict.update({dp_filter.name: dp_filter})
 
         channel_response = mt_channel.channel_response(filter_dict)
 
-- 
2.43.0


From 758fdba9b5ad1809791a4ca2e96b55e8228f9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 66/87] fix: an update with another run or station leaves the
 time span that of all members

---
 mt_metadata/timeseries/run.py     | 1 +
 mt_metadata/timeseries/station.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index c7ce983..6aab822 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -591,6 +591,7 @@ class Run(MetadataBase):
                 if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
                     self.update_attribute(k, v)
         self._update_channels_recorded()
+        self.update_time_period()
 
     def has_channel(self, component: str) -> bool:
         """
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 8861022..61ac848 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -381,8 +381,9 @@ class Station(MetadataBase):
                     self.runs[run_id].update(run)
                 else:
                     self.runs[run_id] = run.copy()
-            self.update_all()
+            self.update_run_list()
         super().update(other, match=match)
+        self.update_time_period()
 
     @property
     def n_runs(self) -> int:
-- 
2.43.0


From a11aab3880b17fad5fc138ddd0b4d278e6b0589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 67/87] fix: surveys and stations that share members are
 updated without touching those

---
 mt_metadata/timeseries/station.py | 4 +++-
 mt_metadata/timeseries/survey.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 61ac848..17c7242 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -378,7 +378,9 @@ class Station(MetadataBase):
         ):
             for run_id, run in other.runs.items():
                 if self.has_run(run_id):
-                    self.runs[run_id].update(run)
+                    # the two may share their runs
+                    if self.runs[run_id] is not run:
+                        self.runs[run_id].update(run)
                 else:
                     self.runs[run_id] = run.copy()
             self.update_run_list()
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index a79b190..2434042 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -579,7 +579,9 @@ class Survey(MetadataBase):
             self.filters.extend({k: f.copy() for k, f in other.filters.items()})
             for station_id, station in other.stations.items():
                 if self.has_station(station_id):
-                    self.stations[station_id].update(station)
+                    # the two may share their stations
+                    if self.stations[station_id] is not station:
+                        self.stations[station_id].update(station)
                 else:
                     self.stations[station_id] = station.copy()
             self.update_all()
-- 
2.43.0


From d63cf8d632f69d4998a3f464988bb6fd31c3d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 68/87] fix: an elevation service that never answers does not
 block forever

---
 mt_metadata/transfer_functions/io/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 98c59f6..35c3eef 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -204,7 +204,7 @@ def get_nm_elev(latitude, longitude):
     )
     # call the url and get the response
     try:
-        response = url_request.urlopen(nm_url)
+        response = url_request.urlopen(nm_url, timeout=30)
     except:
         logger.error("Could not connect to internet to get elevation data.")
         return 0.0
-- 
2.43.0


From 3108f16c5bf8f71fd0beb5c41d841d7d08135d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 69/87] fix: an elevation that is not a finite number counts as
 none

---
 mt_metadata/transfer_functions/io/tools.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 35c3eef..130b9be 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -6,6 +6,7 @@ Created on Sat Dec  4 17:44:51 2021
 """
 
 import json
+import math
 
 # =============================================================================
 # imports
@@ -220,20 +221,25 @@ def get_nm_elev(latitude, longitude):
         info = json.loads(content)
 
     # JSONDecodeError and UnicodeDecodeError are both ValueErrors
-    except ValueError:
+    except (ValueError, RecursionError):
         logger.error(
             f"Input values (latitude={latitude}, longitude={longitude}) "
             "could not be found on US National Map."
         )
         return 0.0
     try:
-        return float(info["value"])
+        if isinstance(info["value"], bool):
+            raise TypeError("elevation is not a number")
+        elevation = float(info["value"])
+        if not math.isfinite(elevation):
+            raise ValueError("elevation is not finite")
+        return elevation
     except (KeyError, IndexError):
         logger.warning("Could not find elevation data")
         return 0.0
     except TypeError:
-        logger.warning(f"Could not find elevation data in {info}")
+        logger.warning("Could not find elevation data in the reply")
         return 0.0
-    except ValueError:
+    except (ValueError, OverflowError):
         logger.warning(f"Could not convert elevation {info['value']} to float")
         return 0.0
-- 
2.43.0


From b2bbd77611c5f1b3918bd72b5a60fb57b50be898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 70/87] fix: a date read from text does not depend on today's
 date

---
 mt_metadata/common/mttime.py | 49 ++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..198af40 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -9,6 +9,7 @@ have a look at https://github.com/pydantic/pydantic/discussions/3673.
 """
 
 import datetime
+import re
 
 # =============================================================================
 # IMPORTS
@@ -17,7 +18,7 @@ from typing import Annotated, Optional
 
 import numpy as np
 import pandas as pd
-from dateutil.parser import parse as dtparser
+from dateutil.parser import parse as _dateutil_parse, parserinfo
 from loguru import logger
 from pandas._libs.tslibs import OutOfBoundsDatetime
 
@@ -172,6 +173,50 @@ TMIN = _localize_utc(pd.Timestamp.min)
 TMAX = _localize_utc(pd.Timestamp.max)
 
 
+class _FixedCentury(parserinfo):
+    """
+    Two digit years mean 1969 - 2068, independent of the current date.
+
+    The default of dateutil is within 50 years of the current date, which
+    means that the same string is a different date in a different year.
+    """
+
+    def convertyear(self, year: int, century_specified: bool = False) -> int:
+        if year < 100 and not century_specified:
+            year += 1900 if year >= 69 else 2000
+        return year
+
+
+# parts of a date that are not given are not taken from the current date
+_DEFAULT_DATE = datetime.datetime(1980, 1, 1)
+_FIXED_CENTURY = _FixedCentury()
+_HAS_FULL_YEAR = re.compile(r"(?<![\d.])(\d{4}|\d{8}|\d{14})(?!\d)")
+
+
+def dtparser(dt_str: str, **kwargs) -> datetime.datetime:
+    """Parse a string with dateutil, independent of the current date."""
+    return _dateutil_parse(
+        dt_str, parserinfo=_FIXED_CENTURY, default=_DEFAULT_DATE, **kwargs
+    )
+
+
+def _string_to_timestamp(dt_str: str) -> pd.Timestamp:
+    """
+    Parse a string with pandas, unless it gives no year or only two digits of
+    it, which pandas completes from the current date.
+    """
+    if (
+        isinstance(dt_str, str)
+        and any(c.isdigit() for c in dt_str)
+        and not _HAS_FULL_YEAR.search(dt_str)
+    ):
+        try:
+            return pd.Timestamp(dtparser(dt_str))
+        except (ValueError, OverflowError):
+            pass
+    return pd.Timestamp(dt_str)
+
+
 def _parse_string(dt_str: str) -> datetime.datetime:
     """
     Parse a datetime string with flexible day/month order handling.
@@ -385,7 +430,7 @@ def parse(
                 gps_time = dt_str.get("gps_time", gps_time)
                 dt_str = dt_str.get("time_stamp", "1980-01-01T00:00:00+00:00")
 
-            t_min_max, stamp = _check_timestamp(pd.Timestamp(dt_str))
+            t_min_max, stamp = _check_timestamp(_string_to_timestamp(dt_str))
         except (ValueError, TypeError, OutOfBoundsDatetime, OverflowError):
             dt = _parse_string(dt_str)
             stamp, t_min_max = _fix_out_of_bounds_time_stamp(dt)
-- 
2.43.0


From 3150d716424ad06dfd8a3c0f806088d1dba55496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 71/87] fix: values of a transfer function go by the channel
 names last set

---
 mt_metadata/transfer_functions/core.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 320fc35..6149c46 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -597,7 +597,29 @@ class TF:
                 "['ex', 'ey', 'hx', 'hy', 'hz']."
             )
 
-        self._channel_nomenclature = ch_dict
+        missing = [ch for ch in ["ex", "ey", "hx", "hy", "hz"] if ch not in ch_dict]
+        if missing:
+            raise KeyError(f"Channel_nomenclature has no name for {missing}.")
+
+        previous = getattr(self, "_channel_nomenclature", {})
+        self._channel_nomenclature = dict(ch_dict)
+        self._inverse_channel_nomenclature = {}
+        # values that are already there go by the new names
+        if hasattr(self, "_transfer_function"):
+            names = {
+                previous[ch]: self._channel_nomenclature[ch]
+                for ch in previous
+                if ch in self._channel_nomenclature
+            }
+            self._transfer_function = self._transfer_function.assign_coords(
+                {
+                    dim: [
+                        names.get(ch, ch)
+                        for ch in self._transfer_function.coords[dim].data.tolist()
+                    ]
+                    for dim in ["output", "input"]
+                }
+            )
         # unpack channel nomenclature dict
         self.ex = self._channel_nomenclature["ex"]
         self.ey = self._channel_nomenclature["ey"]
-- 
2.43.0


From ca303d9e9bd345d1e2d9f1fb103f5baff918f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 72/87] fix: the model error of the transfer function can be
 set

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 6149c46..fc9f567 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -643,6 +643,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -659,6 +660,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -792,6 +794,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
-- 
2.43.0


From f33b8d7611541d559b5ab1bdd5906a77641a64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 73/87] fix: a covariance set to None leaves the errors as they
 are

---
 mt_metadata/transfer_functions/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index fc9f567..201111c 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1411,6 +1411,8 @@ class TF:
             The data array to set.
 
         """
+        if value is None:
+            return
         self._set_data_array(value, "isp")
         if self.has_residual_covariance():
             self._compute_error_from_covariance()
@@ -1477,6 +1479,8 @@ class TF:
             The data array to set.
 
         """
+        if value is None:
+            return
         self._set_data_array(value, "res")
         if self.has_inverse_signal_power():
             self._compute_error_from_covariance()
-- 
2.43.0


From 6869c4327ec50baf24f8ae29dd7776812fddcfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 74/87] fix: a rejected assignment to a transfer function
 changes nothing

---
 mt_metadata/transfer_functions/core.py | 32 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 201111c..c7945c4 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -854,14 +854,11 @@ class TF:
             raise TFError(msg)
         # need to reorder the data array to the expected coordinates
         da = da.reindex(output=ch_out, input=ch_in)
-        # if this is the first instantiation then just resize the
-        # transfer function to fit the input
-        if (
-            self._transfer_function.transfer_function.data.shape[0] == 1
-            and not self.has_tipper()
-            and not self.has_impedance()
-        ):
-            self._transfer_function = self._initialize_transfer_function(da.period)
+        # if this is the first instantiation then the transfer function will
+        # be resized to fit the input
+        if self._transfer_function.transfer_function.data.shape[
+            0
+        ] == 1 and not self._has_values():
             return da
         elif (
             self._transfer_function.transfer_function.data.shape[0] == da.data.shape[0]
@@ -872,6 +869,12 @@ class TF:
             logger.error(msg)
             raise TFError(msg)
 
+    def _has_values(self) -> bool:
+        """True if anything other than zero has been set"""
+        return any(
+            np.any(array.data != 0) for array in self._transfer_function.values()
+        )
+
     def _set_data_array(
         self, value: xr.DataArray | np.ndarray | list | tuple | None, atype: str
     ) -> None:
@@ -911,12 +914,21 @@ class TF:
         if isinstance(value, (list, tuple, np.ndarray)):
             value = np.array(value)
             self._validate_input_ndarray(value, atype=atype)
+            # everything is converted before anything is changed
+            value = value.astype(self._transfer_function[key].dtype)
 
             self._transfer_function[key].loc[comps] = value
         elif isinstance(value, xr.DataArray):
             nda = self._validate_input_dataarray(value, atype=atype)
-
-            self._transfer_function[key].loc[comps] = nda
+            # everything is converted before anything is changed
+            nda = nda.astype(self._transfer_function[key].dtype)
+            dataset = self._transfer_function
+            # nothing set yet, take the periods of the input
+            if self.period.size == 1 and not self._has_values():
+                dataset = self._initialize_transfer_function(nda.period)
+
+            dataset[key].loc[comps] = nda
+            self._transfer_function = dataset
         else:
             msg = (
                 f"Data type {type(value)} not supported use a numpy "
-- 
2.43.0


From 6d2ec08813b18d22b0e04d33cca4b0177594aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 75/87] fix: setting periods keeps values at a single period of
 1 s and shares no array with the caller

---
 mt_metadata/transfer_functions/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index c7945c4..2caf484 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -563,7 +563,7 @@ class TF:
 
         if len(periods) != 1 or periods[0] != 1:
             # Expand/adjust to match requested periods
-            dataset = dataset.reindex(period=periods, fill_value=0.0)
+            dataset = dataset.reindex(period=np.array(periods), fill_value=0.0)
 
         return dataset
 
@@ -1598,7 +1598,13 @@ class TF:
             If the new periods are not compatible with the existing ones.
         """
         if self.period is not None:
-            if len(self.period) == 1 and (self.period == np.array([1])).all():
+            # the caller goes on using its own array
+            value = np.array(value)
+            if (
+                len(self.period) == 1
+                and (self.period == np.array([1])).all()
+                and not self._has_values()
+            ):
                 self._transfer_function = self._initialize_transfer_function(
                     periods=value
                 )
@@ -1613,7 +1619,9 @@ class TF:
             elif not (self.period == value).all():
                 self.dataset["period"] = value
         else:
-            self._transfer_function = self._initialize_transfer_function(periods=value)
+            self._transfer_function = self._initialize_transfer_function(
+                periods=np.array(value)
+            )
         return
 
     @property
-- 
2.43.0


From b0e53d8f40abc7ab1f0308ff637281151028d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 76/87] fix: merging keeps periods in descending order and
 leaves the other transfer function as it is

---
 mt_metadata/transfer_functions/core.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 2caf484..8f80d0e 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1851,10 +1851,7 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
-            return get_slice(item["tf"], period_slice)
+            return get_slice(is_tf(item["tf"]), period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
             """
@@ -1867,7 +1864,7 @@ class TF:
             Parameters
             ----------
             tf: xarray.Dataset
-                The transfer function to slice.
+                The transfer function to slice, sorted by period.
             period_slice: dict[str, slice]
                 The slice to apply to the period dimension.
 
@@ -1877,37 +1874,37 @@ class TF:
                 The sliced transfer function.
             """
             try:
-                return tf._transfer_function.loc[period_slice]
+                return tf.loc[period_slice]
 
             except KeyError:
                 if (
                     period_slice["period"].start is not None
                     and period_slice["period"].stop is not None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start)
-                        & (tf._transfer_function.period <= period_slice["period"].stop),
+                    return tf.where(
+                        (tf.period >= period_slice["period"].start)
+                        & (tf.period <= period_slice["period"].stop),
                         drop=True,
                     )
                 elif (
                     period_slice["period"].start is None
                     and period_slice["period"].stop is not None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period <= period_slice["period"].stop),
+                    return tf.where(
+                        (tf.period <= period_slice["period"].stop),
                         drop=True,
                     )
                 elif (
                     period_slice["period"].start is not None
                     and period_slice["period"].stop is None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start),
+                    return tf.where(
+                        (tf.period >= period_slice["period"].start),
                         drop=True,
                     )
 
         period_slice_self = get_slice_dict(period_min, period_max)
-        tf_list = [get_slice(self, period_slice_self)]
+        tf_list = [get_slice(is_tf(self), period_slice_self)]
         if not isinstance(other, list):
             other = [other]
 
-- 
2.43.0


From 5e7338dee69de3981f6dc0d6dd7b307fd8f3acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 77/87] fix: a z-file can be written when the run's channels do
 not go by the names of the transfer function

---
 mt_metadata/transfer_functions/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8f80d0e..5f144df 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2441,7 +2441,8 @@ class TF:
                 if "rr" in comp:
                     continue
                 ch = self.station_metadata.runs[0].get_channel(comp)
-                ch.component = self.inverse_channel_nomenclature[comp]
+                # channels that do not go by these names keep their own
+                ch.component = self.inverse_channel_nomenclature.get(comp, comp)
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
                 ch.component = comp
-- 
2.43.0


From 2bf501bf9254994c06895a1f5c1b6451d76719a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 78/87] fix: XML and z-files can be read into a transfer
 function with other channel names

---
 mt_metadata/transfer_functions/core.py | 45 +++++++++++---------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 5f144df..882914c 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2289,19 +2289,19 @@ class TF:
         with np.errstate(invalid="ignore"):
             self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
         self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
+            dict(input=self.hx_hy, output=self.hx_hy)
         ] = emtfxml_obj.data.z_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["ex", "ey"], output=["ex", "ey"])
+            dict(input=self.ex_ey, output=self.ex_ey)
         ] = emtfxml_obj.data.z_residcov
 
         self.tipper = emtfxml_obj.data.t
         self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
         self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
+            dict(input=self.hx_hy, output=self.hx_hy)
         ] = emtfxml_obj.data.t_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["hz"], output=["hz"])
+            dict(input=[self.hz], output=[self.hz])
         ] = emtfxml_obj.data.t_residcov
 
     def to_jfile(self) -> None:
@@ -2504,29 +2504,20 @@ class TF:
         for tf_key, j_key in k_dict.items():
             setattr(self, tf_key, getattr(zmm_obj, j_key))
 
-        self._transfer_function["transfer_function"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.transfer_function.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ]
-
-        self._transfer_function["transfer_function_error"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.transfer_function_error.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ]
-
-        self._transfer_function["inverse_signal_power"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.input_channels)
-        ] = zmm_obj.dataset.inverse_signal_power.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.input_channels)
-        ]
-
-        self._transfer_function["residual_covariance"].loc[
-            dict(input=zmm_obj.output_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.residual_covariance.loc[
-            dict(input=zmm_obj.output_channels, output=zmm_obj.output_channels)
-        ]
+        # channels of the file are filled in under the names they have here
+        inputs, outputs = zmm_obj.input_channels, zmm_obj.output_channels
+        for name, ch_in, ch_out in [
+            ("transfer_function", inputs, outputs),
+            ("transfer_function_error", inputs, outputs),
+            ("inverse_signal_power", inputs, inputs),
+            ("residual_covariance", outputs, outputs),
+        ]:
+            self._transfer_function[name].loc[
+                dict(
+                    input=[self.channel_nomenclature.get(ch, ch) for ch in ch_in],
+                    output=[self.channel_nomenclature.get(ch, ch) for ch in ch_out],
+                )
+            ] = zmm_obj.dataset[name].loc[dict(input=ch_in, output=ch_out)].data
 
         self._compute_error_from_covariance()
         if kwargs.get("use_declination", False):
-- 
2.43.0


From a52e01cd639a4c5dd6f86e7077ad2ccd8bc844c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 79/87] fix: transfer functions of every data type can be saved
 as XML and read again

---
 mt_metadata/common/enumerations.py                   | 10 ++++++++++
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/enumerations.py b/mt_metadata/common/enumerations.py
index c0df891..a6ea972 100644
--- a/mt_metadata/common/enumerations.py
+++ b/mt_metadata/common/enumerations.py
@@ -69,6 +69,16 @@ class DataTypeEnum(StrEnumerationBase):
     LPMT_TF = "LPMT_TF"
     CSAMT = "CSAMT"
     NSAMT = "NSAMT"
+    WBMT = "WBMT"
+    # every type of data has a transfer function
+    RMT_TF = "RMT_TF"
+    AMT_TF = "AMT_TF"
+    ULPMT_TF = "ULPMT_TF"
+    LP_TF = "LP_TF"
+    BB_TF = "BB_TF"
+    WB_TF = "WB_TF"
+    CSAMT_TF = "CSAMT_TF"
+    NSAMT_TF = "NSAMT_TF"
 
 
 class ArrayDTypeEnum(str, Enum):
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 6886a93..a43c896 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1184,7 +1184,7 @@ class EMTFXML:
 
         self.site.acquired_by = sm.acquired_by.author
         if sm.data_type is not None:
-            self.sub_type = f"{sm.data_type.upper()}_TF"
+            self.sub_type = f"{sm.data_type.upper().removesuffix('_TF')}_TF"
         else:
             self.sub_type = DataTypeEnum.MT_TF
         self.site.name = sm.geographic_name
-- 
2.43.0


From a98057d08c1882ecc67b289810edefa4093fc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 80/87] fix: z-files keep periods that five decimals cannot
 hold

---
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index a5c5e8e..40a8a55 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -695,9 +695,12 @@ class ZMM(ZMMHeader):
                     "npts": 0,
                     "sample_rate": self.station_metadata.runs[0].sample_rate,
                 }
+            period = f"{p:.5f}"
+            if abs(float(period) - p) > 1e-6 * abs(p):
+                period = f"{p:{PERIOD_FORMAT}}"
             lines += [
                 (
-                    f"period : {p:^18.5f} "
+                    f"period : {period:^18} "
                     f"decimation level {dec_dict['level']:^8d}"
                     f"freq. band from {dec_dict['bands'][0]:>5d} to {dec_dict['bands'][1]:>5d}"
                 )
-- 
2.43.0


From 000016eb5ca43edfbd11fe3c9184ac95dff40be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 81/87] fix: z-files get every channel of the data, with
 orientations that can be read back

---
 mt_metadata/transfer_functions/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 882914c..1e27fb4 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2378,13 +2378,14 @@ class TF:
             c = ZChannel()
             c.channel = ch
             c.number = ch_num
+            c.azimuth = azimuth = 90.0 if ch in ["ey", "hy"] else 0.0
             setattr(zmm_obj, c.channel, c)
             if ch in ["ex", "ey"]:
                 rc = Electric(component=ch, channel_number=ch_num)
-                run.add_channel(rc)
             elif ch in ["hx", "hy", "hz"]:
                 rc = Magnetic(component=ch, channel_number=ch_num)
-                run.add_channel(rc)
+            rc.measurement_azimuth = azimuth
+            run.add_channel(rc)
         return run
 
     def to_zmm(self) -> ZMM:
@@ -2437,6 +2438,8 @@ class TF:
                 run = self.make_zmm_run(zmm_obj, number_dict)
                 self.station_metadata.runs[0] = run
         else:
+            # channels that the run has no metadata of are written all the same
+            self.make_zmm_run(zmm_obj, number_dict)
             for comp in self.station_metadata.runs[0].channels_recorded_all:
                 if "rr" in comp:
                     continue
-- 
2.43.0


From 9bec1d1852df49388234f3098f74878e38d43c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 82/87] fix: z-files of stations whose names hold header words
 can be read

---
 .../transfer_functions/io/zfiles/zmm.py       | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 40a8a55..9aa4aa0 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -129,7 +129,7 @@ class ZMMHeader(object):
 
             self._header_count = 0
             header_list = []
-            while "period" not in line:
+            while not line.strip().lower().startswith("period"):
                 if line == "":
                     raise ZMMError(f"{self.fn} ends before the first period block")
                 header_list.append(line)
@@ -157,9 +157,9 @@ class ZMMHeader(object):
                     self.station_metadata.comments.value = line.replace("*", "").strip()
             elif ii == 2:
                 self.processing_type = line.lower().strip()
-            elif "station" in line:
+            elif line.strip().lower().startswith("station"):
                 self.station_metadata.id = line.split(":")[1].strip()
-            elif "coordinate" in line:
+            elif line.strip().lower().startswith("coordinate"):
                 line_list = line.strip().split()
                 self.latitude = line_list[1]
                 lon = float(line_list[2])
@@ -168,11 +168,11 @@ class ZMMHeader(object):
                 self.longitude = lon
 
                 self.station_metadata.location.declination.value = float(line_list[-1])
-            elif "number" in line:
+            elif line.strip().lower().startswith("number"):
                 line_list = line.strip().split()
                 self.num_channels = int(line_list[3])
                 self.num_freq = int(line_list[-1])
-            elif "orientations" in line:
+            elif line.strip().lower().startswith("orientations"):
                 pass
             elif line.strip()[-2:].lower() in ["ex", "ey", "hx", "hy", "hz"]:
                 line_list = line.strip().split()
@@ -753,13 +753,14 @@ class ZMM(ZMMHeader):
         split file into period blocks
         """
 
-        with open(self.fn, "r") as fid:
-            fn_str = fid.read()
-        period_strings = fn_str.lower().split("period")
         period_blocks = []
-        for per in period_strings:
-            period_blocks.append(per.split("\n"))
-        return period_blocks[1:]
+        with open(self.fn, "r") as fid:
+            for line in fid.read().lower().split("\n"):
+                if line.strip().startswith("period"):
+                    period_blocks.append([])
+                if period_blocks:
+                    period_blocks[-1].append(line)
+        return period_blocks
 
     def _read_period_block(self, period_block: list[str]) -> dict:
         """
-- 
2.43.0


From 13c7ab7d8e5f9389899750c7e4c0a135fcc4c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 83/87] fix: saving as EDI leaves unset positions and azimuths
 of the caller's channels unset

---
 .../io/edi/metadata/define_measurement.py     | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 920e58d..1d51fc3 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -521,27 +521,21 @@ class DefineMeasurement(MetadataBase):
             return
 
         azm = channel.measurement_azimuth
-        if azm != channel.translated_azimuth:
+        if channel.translated_azimuth is not None:
             azm = channel.translated_azimuth
         if azm is None:
             azm = 0.0
+
+        def zero_if_none(value):
+            return 0 if value is None else value
+
         if "e" in channel.component:
-            for attr in [
-                "negative.x",
-                "negative.y",
-                "positive.x2",
-                "positive.y2",
-                "measurement_azimuth",
-                "translated_azimuth",
-            ]:
-                if channel.get_attr_from_name(attr) is None:
-                    channel.update_attribute(attr, 0)
             meas = EMeasurement(
                 **{
-                    "x": channel.negative.x,
-                    "x2": channel.positive.x2,
-                    "y": channel.negative.y,
-                    "y2": channel.positive.y2,
+                    "x": zero_if_none(channel.negative.x),
+                    "x2": zero_if_none(channel.positive.x2),
+                    "y": zero_if_none(channel.negative.y),
+                    "y2": zero_if_none(channel.positive.y2),
                     "chtype": channel.component,
                     "id": channel.channel_id,
                     "azm": azm,
@@ -551,13 +545,10 @@ class DefineMeasurement(MetadataBase):
             self.measurements[channel.component.lower()] = meas
 
         elif "h" in channel.component:
-            for attr in ["location.x", "location.y", "location.z"]:
-                if channel.get_attr_from_name(attr) is None:
-                    channel.update_attribute(attr, 0)
             meas = HMeasurement(
                 **{
-                    "x": channel.location.x,
-                    "y": channel.location.y,
+                    "x": zero_if_none(channel.location.x),
+                    "y": zero_if_none(channel.location.y),
                     "azm": azm,
                     "chtype": channel.component,
                     "id": channel.channel_id,
-- 
2.43.0


From 3247f8387f6658951ec6c3d50525dc065767a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 84/87] fix: adding a filter twice by a name that is normalised
 adds it once

---
 mt_metadata/timeseries/channel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..3a7c774 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -454,11 +454,6 @@ class ChannelBase(MetadataBase):
             if not isinstance(name, str):
                 raise TypeError("name must be a string")
 
-            # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
-                logger.debug(f"Filter '{name}' already exists, skipping duplicate")
-                return
-
             if stage is None:
                 stage = len(self.filters) + 1
 
@@ -467,7 +462,13 @@ class ChannelBase(MetadataBase):
             if comments is not None:
                 filter_kwargs["comments"] = comments
 
-            self.filters.append(AppliedFilter(**filter_kwargs))
+            applied_filter = AppliedFilter(**filter_kwargs)
+
+            # Check if filter with this name already exists
+            if any(f.name == applied_filter.name for f in self.filters):
+                logger.debug(f"Filter '{name}' already exists, skipping duplicate")
+                return
+            self.filters.append(applied_filter)
 
             # Sort filters and validate for duplicates
             self._sort_filters()
-- 
2.43.0


From b1783f725be280e621943b8b13b49f04e0331d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 85/87] fix: a filter object is added in the order of its stage

---
 mt_metadata/timeseries/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 3a7c774..f06665a 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -448,6 +448,7 @@ class ChannelBase(MetadataBase):
             if applied_filter.stage is None:
                 applied_filter.stage = len(self.filters) + 1
             self.filters.append(applied_filter)
+            self._sort_filters()
         else:
             if name is None:
                 raise ValueError("name must be provided if applied_filter is None")
-- 
2.43.0


From 3c2ddc3ae710445f3717d51848884516e475a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 86/87] fix: channels with a negative tilt can be written to
 StationXML

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index d3116bf..100b1a0 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -225,7 +225,8 @@ class XMLChannelMTChannel(BaseTranslator):
                 xml_channel.azimuth = mt_channel.measurement_azimuth % 360
 
             elif xml_key in ["dip"]:
-                xml_channel.dip = mt_channel.measurement_tilt % 360
+                # StationXML has dips from -90 to 90
+                xml_channel.dip = (mt_channel.measurement_tilt + 180) % 360 - 180
 
             elif "time_period" in mt_key:
                 value = mt_channel.get_attr_from_name(mt_key).time_stamp
-- 
2.43.0


From d31f66d66aa2e8ebb72fad0c24342183e6db6d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 87/87] fix: a ZMM object has channel names of its own

---
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 9aa4aa0..f8db679 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -419,6 +419,7 @@ class ZMM(ZMMHeader):
                 "['ex', 'ey', 'hx', 'hy', 'hz']."
             )
 
+        ch_dict = dict(ch_dict)
         self._channel_nomenclature = ch_dict
         # unpack channel nomenclature dict
         for comp in DEFAULT_CHANNEL_NOMENCLATURE.keys():
-- 
2.43.0

