From 8880a1eb18fb1fc3887ee00ced9df5c21d967c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 01/61] fix: apply train-level class imbalance to graph
 datasets

---
 src/modssc/sampling/services/service.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/sampling/services/service.py b/src/modssc/sampling/services/service.py
index 52894bd..4b8177f 100644
--- a/src/modssc/sampling/services/service.py
+++ b/src/modssc/sampling/services/service.py
@@ -440,10 +440,14 @@ def _sample_graph(
     # labeling happens inside train_mask
     train_idx = np.where(train_mask)[0].astype(np.int64)
 
+    rng_imb = np.random.default_rng(seed_imb)
+    if plan.imbalance.apply_to == "train":
+        train_idx = apply_imbalance(idx=train_idx, y=y, spec=plan.imbalance, rng=rng_imb)
+        train_mask = _idx_to_mask(n_nodes, train_idx)
+
     rng_lab = np.random.default_rng(seed_label)
     labeled_idx = select_labeled(train_idx=train_idx, y=y, spec=plan.labeling, rng=rng_lab)
 
-    rng_imb = np.random.default_rng(seed_imb)
     if plan.imbalance.apply_to == "labeled":
         labeled_idx = apply_imbalance(idx=labeled_idx, y=y, spec=plan.imbalance, rng=rng_imb)
 
-- 
2.43.0


From 870c69e2b491ecc4397b716416b64df3b51ca484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 02/61] fix: a killed save_split never leaves metadata paired
 with other arrays

---
 src/modssc/sampling/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index b26bd72..89e71fe 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -25,15 +25,17 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
         "stats": dict(result.stats),
         "mode": "graph" if result.is_graph() else "inductive",
     }
-    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
-
     arrays: dict[str, np.ndarray] = {}
     for k, v in result.indices.items():
         arrays[f"idx__{k}"] = np.asarray(v, dtype=np.int64)
     for k, v in result.masks.items():
         arrays[f"mask__{k}"] = np.asarray(v, dtype=bool)
 
+    # split.json is the commit marker: it never coexists with arrays of another (or a torn) save.
+    meta_path = out_dir / "split.json"
+    meta_path.unlink(missing_ok=True)
     np.savez_compressed(out_dir / "arrays.npz", **arrays)
+    _atomic_write_text(meta_path, json.dumps(meta, indent=2, sort_keys=True) + "\n")
     return out_dir
 
 
-- 
2.43.0


From b7da895c141cfd7b9623844cff14c902e3a54da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 03/61] fix: generate_views no longer writes into the metadata
 of its input dataset

---
 src/modssc/views/services/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..54a1717 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,7 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +217,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From e4a5246302f9d14efbeaa9348e2c436b03f9977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 04/61] fix: swap noise on torch inputs is a function of the
 augmentation context

---
 src/modssc/data_augmentation/ops/tabular.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..13a57a4 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,10 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            # Keep the result a function of the augmentation context (not of global torch state)
+            gen = torch.Generator(device=x.device).manual_seed(int(rng.integers(0, 1 << 31)))
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From c9abef251acce8dcb27f6c8147cb06bd0ba73e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 05/61] fix: a process that finds the dataset lock taken no
 longer removes it

---
 src/modssc/data_loader/cache.py | 38 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..6fa7df1 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -17,6 +17,11 @@ from modssc.data_loader.manifest import Manifest, read_manifest
 from modssc.runtime.paths import default_local_cache_subdir
 from modssc.utils.io import atomic_write_text as _atomic_write_text
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover - not available on Windows
+    fcntl = None
+
 CACHE_ENV = "MODSSC_CACHE_DIR"
 CACHE_ROOT_ENV = "MODSSC_CACHE_ROOT"
 
@@ -88,22 +93,45 @@ def ensure_layout(layout: CacheLayout) -> None:
 
 @contextmanager
 def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
-    """Simple file lock using O_EXCL creation."""
+    """Exclusive file lock; raises FileExistsError while another process holds it.
+
+    The lock is the kernel's (released when its holder dies, so a leftover file never blocks);
+    only the holder removes the file. Without fcntl, O_EXCL creation is the lock.
+    """
     ensure_layout(layout)
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    fd = _acquire_lock(lock_path)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+        os.ftruncate(fd, 0)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
-            os.close(fd)
         # best effort cleanup
         with contextlib.suppress(Exception):
             lock_path.unlink(missing_ok=True)
+        os.close(fd)
+
+
+def _acquire_lock(lock_path: Path) -> int:
+    if fcntl is None:
+        return os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+    while True:
+        fd = os.open(str(lock_path), os.O_CREAT | os.O_WRONLY)
+        try:
+            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
+            # The previous holder may have removed the file we just locked.
+            with contextlib.suppress(FileNotFoundError):
+                if os.path.samestat(os.fstat(fd), os.stat(lock_path)):
+                    return fd
+        except BlockingIOError:
+            os.close(fd)
+            raise FileExistsError(f"Dataset cache entry is locked: {lock_path}") from None
+        except BaseException:
+            os.close(fd)
+            raise
+        os.close(fd)
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From 1aebf4f3672a96f023626f3e216f0e50b6b2f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 06/61] fix: a killed dataset download or purge never leaves an
 entry that looks complete

---
 src/modssc/data_loader/cache.py            | 3 ++-
 src/modssc/data_loader/manifest.py         | 4 ++--
 src/modssc/data_loader/services/service.py | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 6fa7df1..eba4830 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -293,9 +293,10 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
+    # The manifest marks a complete entry: it goes first.
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/manifest.py b/src/modssc/data_loader/manifest.py
index fdc2ff2..9dafa1b 100644
--- a/src/modssc/data_loader/manifest.py
+++ b/src/modssc/data_loader/manifest.py
@@ -11,6 +11,7 @@ from typing import Any
 
 from modssc.data_loader.storage.json import to_jsonable as _jsonable
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset
+from modssc.utils.io import atomic_write_text
 
 
 def utc_now_iso() -> str:
@@ -112,8 +113,7 @@ def build_manifest(
 
 
 def write_manifest(path: Path, manifest: Manifest) -> None:
-    path.parent.mkdir(parents=True, exist_ok=True)
-    path.write_text(manifest.to_json() + "\n", encoding="utf-8")
+    atomic_write_text(path, manifest.to_json() + "\n")
 
 
 def read_manifest(path: Path) -> Manifest:
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..7b7ea7b 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed; the manifest marks a complete entry: it goes first and comes back last
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From 483cf6b3c94760de0e03974fa661eeb88e241004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 07/61] fix: dataset storage keeps the shape of 0-d and empty
 multi-dimensional object arrays

---
 src/modssc/data_loader/storage/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/storage/files.py b/src/modssc/data_loader/storage/files.py
index 0fe7ab2..af300bc 100644
--- a/src/modssc/data_loader/storage/files.py
+++ b/src/modssc/data_loader/storage/files.py
@@ -134,7 +134,8 @@ class FileStorage:
         return Split(X=X, y=y, edges=edges, masks=masks)
 
     def _save_array(self, root: Path, stem: str, arr: np.ndarray) -> Mapping[str, Any]:
-        if _is_str_object_array(arr):
+        # nested JSON lists cannot carry the shape of 0-d or empty multi-dimensional arrays
+        if _is_str_object_array(arr) and (arr.ndim == 1 or (arr.ndim > 1 and arr.size)):
             path = root / f"{stem}.jsonl.gz"
             _write_jsonl_gz(path, arr.tolist())
             return {"format": "jsonl.gz", "path": path.name}
-- 
2.43.0


From 4bd7303665430abea5ab9bf2270cc21491ddc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 08/61] fix: preprocess cache stores only values it can load
 back unchanged

---
 src/modssc/preprocess/cache.py | 68 ++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..9c26de5 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -101,22 +101,48 @@ def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None)
     return desc
 
 
+def _is_exact_json(value: Any) -> bool:
+    """Whether a value comes back from JSON with the same types and contents."""
+    if type(value) is str:
+        return not any(0xD800 <= ord(ch) <= 0xDFFF for ch in value)
+    if value is None or type(value) in (int, float, bool):
+        return True
+    if type(value) is list:
+        return all(_is_exact_json(v) for v in value)
+    if type(value) is dict:
+        return all(type(k) is str and _is_exact_json(k) for k in value) and all(
+            _is_exact_json(v) for v in value.values()
+        )
+    return False
+
+
+def _save_object_array(path: Path, value: np.ndarray) -> dict[str, Any] | None:
+    try:
+        payload = value.tolist()
+    except TypeError:
+        return None
+    if int(value.size) <= OBJECT_JSON_MAX_ITEMS and value.dtype == object:
+        exact = value.size > 0 and all(
+            not isinstance(v, list) and _is_exact_json(v) for v in value.reshape(-1)
+        )
+        if exact:
+            return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
+    try:
+        np.save(path.with_suffix(".npy"), value, allow_pickle=True)
+    except Exception:
+        logger.debug("Cannot serialize object array for the preprocess cache", exc_info=True)
+        return None
+    return {"type": "npy", "path": path.with_suffix(".npy").name, "allow_pickle": True}
+
+
 def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
-    """Save a value to disk and return a small descriptor for the manifest."""
+    """Save a value to disk and return a small descriptor for the manifest.
+
+    Returns None when the value cannot be stored so that it loads back unchanged.
+    """
     if isinstance(value, np.ndarray):
-        if value.dtype == object:
-            if int(value.size) > OBJECT_JSON_MAX_ITEMS:
-                np.save(path.with_suffix(".npy"), value, allow_pickle=True)
-                return {
-                    "type": "npy",
-                    "path": path.with_suffix(".npy").name,
-                    "allow_pickle": True,
-                }
-            try:
-                payload = value.tolist()
-            except TypeError:
-                return None
-            return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
+        if value.dtype.hasobject:
+            return _save_object_array(path, value)
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
 
@@ -146,16 +172,10 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             }
 
     # Support simple JSON-serializable payloads (lists of strings, small dicts, etc.).
-    if isinstance(value, (str, int, float, bool)) or value is None:
+    if _is_exact_json(value):
         return _save_json(path, value)
-    if isinstance(value, (list, tuple, dict)):
-        try:
-            payload = value
-            if isinstance(value, tuple):
-                payload = list(value)
-            return _save_json(path, payload)
-        except TypeError:
-            return None
+    if type(value) is tuple and all(_is_exact_json(v) for v in value):
+        return _save_json(path, list(value), extra={"format": "tuple"})
 
     if _is_scipy_sparse(value):
         # Lazy import to keep base install light.
@@ -222,6 +242,8 @@ def _load_value(path: Path, desc: dict[str, Any]) -> Any:
         payload = json.loads(fp.read_text(encoding="utf-8"))
         if desc.get("format") == "ndarray":
             return np.asarray(payload, dtype=object)
+        if desc.get("format") == "tuple":
+            return tuple(payload)
         return payload
     if t == "npz":
         try:
-- 
2.43.0


From ce601a180674abb67c0dbdc7c8cc38da46157aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 09/61] fix: damaged or half-written preprocess cache entries
 are recomputed, output names never collide

---
 src/modssc/preprocess/cache.py | 45 ++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 9c26de5..f987469 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import contextlib
 import logging
 import os
+import tempfile
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
@@ -302,11 +303,25 @@ class CacheManager:
         d.mkdir(parents=True, exist_ok=True)
 
         saved: dict[str, dict[str, Any]] = {}
-        for key, value in produced.items():
-            name = _safe_name(key)
-            desc = _save_value(d / name, value)
-            if desc is not None:
-                saved[key] = desc
+        unsaved: list[str] = []
+        used_names: set[str] = set()
+        # Values are written aside and moved into place, so that neither a killed process nor a
+        # concurrent run of the same step ever exposes a partially written file.
+        with tempfile.TemporaryDirectory(dir=str(d), prefix=".tmp-") as tmp:
+            for key, value in produced.items():
+                base = _safe_name(key)
+                name, i = base, 1
+                while name.casefold() in used_names:
+                    i += 1
+                    name = f"{base}-{i}"
+                used_names.add(name.casefold())
+                desc = _save_value(Path(tmp) / name, value)
+                if desc is not None:
+                    saved[key] = desc
+                else:
+                    unsaved.append(str(key))
+            for written in sorted(Path(tmp).iterdir()):
+                written.replace(d / written.name)
 
         step_root = self.step_dir(step_fingerprint)
         step_root.mkdir(parents=True, exist_ok=True)
@@ -328,8 +343,11 @@ class CacheManager:
             if k != "saved":
                 payload[k] = v
 
-        payload.setdefault("saved", {})
+        if not isinstance(payload.get("saved"), dict):
+            payload["saved"] = {}
         payload["saved"][split] = saved
+        if unsaved or payload.get("unsaved"):
+            payload["unsaved"] = {**payload.get("unsaved", {}), split: unsaved}
         atomic_write_text(manifest_path, stable_json_dumps(payload))
 
     def load_step_outputs(self, *, step_fingerprint: str, split: str) -> dict[str, Any]:
@@ -340,14 +358,25 @@ class CacheManager:
 
         manifest = manifest_path.read_text()
         data = json_load(manifest)
-        saved = data.get("saved", {}).get(split, {})
+        try:
+            saved = data["saved"][split]
+            unsaved = data.get("unsaved", {}).get(split)
+        except (AttributeError, KeyError, TypeError) as e:
+            raise PreprocessCacheError("Invalid cache manifest structure") from e
         if not isinstance(saved, dict):
             raise PreprocessCacheError("Invalid cache manifest structure")
+        if unsaved:
+            raise PreprocessCacheError(f"Outputs were not cached: {unsaved}")
         out: dict[str, Any] = {}
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                try:
+                    out[str(key)] = _load_value(split_path, desc)
+                except (OptionalDependencyError, PreprocessCacheError):
+                    raise
+                except Exception as e:
+                    raise PreprocessCacheError(f"Failed to load cached value {key!r}") from e
         return out
 
 
-- 
2.43.0


From e18956282ece407968344887c6643c38e83574e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 10/61] fix: preprocess step fingerprints cover every artifact
 the step reads

---
 src/modssc/preprocess/catalog.py           | 14 +++++++-------
 src/modssc/preprocess/services/pipeline.py | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/modssc/preprocess/catalog.py b/src/modssc/preprocess/catalog.py
index 48ee9d1..cd75428 100644
--- a/src/modssc/preprocess/catalog.py
+++ b/src/modssc/preprocess/catalog.py
@@ -11,7 +11,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Ensure numeric arrays are 2D (n_samples, n_features) and store as features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("raw.X",),
+        consumes=("raw.X", "features.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -113,7 +113,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Standardize features by removing the mean and scaling to unit variance.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -123,7 +123,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Impute missing values using mean/median/etc.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Text
@@ -287,7 +287,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Create uniform edge weights if missing.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "graph.edge_weight"),
         produces=("graph.edge_weight",),
     ),
     StepSpec(
@@ -317,7 +317,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Pack X and edge_index into a dict for Inductive GNNs.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -327,7 +327,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn DGI embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X", "raw.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Labels
@@ -368,7 +368,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Convert raw.y to a torch tensor and store as labels.y.",
         required_extra="inductive-torch",
         modalities=(),
-        consumes=("raw.y",),
+        consumes=("raw.y", "labels.y"),
         produces=("labels.y",),
     ),
 )
diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..525b289 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -304,6 +304,15 @@ def _initial_store(split: Split) -> ArtifactStore:
     return store
 
 
+def _step_inputs(step: ResolvedStep) -> tuple[str, ...]:
+    """Every artifact the step may read: declared, implicit, and selected by parameter."""
+    keys = [*step.spec.consumes, *_IMPLICIT_CONSUMES.get(step.step_id, ())]
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        keys.append(input_key)
+    return tuple(dict.fromkeys(keys))
+
+
 def _final_keep_keys(
     steps: tuple[ResolvedStep, ...], *, output_key: str, initial_keys: set[str]
 ) -> set[str]:
@@ -331,8 +340,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_step_inputs(step))
     return keep_sets
 
 
@@ -513,9 +521,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        step_inputs = _step_inputs(step)
+        inputs_train = {k: prov_train.get(k) for k in step_inputs if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in step_inputs if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From a1d4ca5e8c2bd59198ced427ced5e6c2f591f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 11/61] fix: a preprocess step cached for one split only is
 recomputed for both

---
 src/modssc/preprocess/services/pipeline.py | 31 +++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 525b289..f59424b 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -569,6 +569,24 @@ def preprocess(
             except PreprocessCacheError as e:
                 logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
                 produced_train = None
+        produced_test: dict[str, Any] | None = None
+        test_from_cache = False
+        if test_store is not None:
+            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
+                try:
+                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
+                    if not _cache_outputs_complete(produced_test, spec.produces):
+                        raise PreprocessCacheError(
+                            f"Incomplete cached outputs for step {step_id!r} (test)"
+                        )
+                    test_from_cache = True
+                except PreprocessCacheError as e:
+                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
+                    produced_test = None
+            # Both splits draw from the same generator: a half-cached step is recomputed in full.
+            if not (train_from_cache and test_from_cache):
+                produced_train = produced_test = None
+                train_from_cache = test_from_cache = False
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -604,20 +622,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From 6b8c1cac742cec88a02e8d29fc3b4c069533c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 12/61] fix: purge_unused_artifacts no longer requires the
 artifacts it has dropped

---
 src/modssc/preprocess/services/pipeline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index f59424b..7759093 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -351,6 +351,10 @@ def _purge_store(store: ArtifactStore, *, keep: set[str]) -> None:
     store.data = {k: v for k, v in store.data.items() if k in keep}
 
 
+def _first_available(store: ArtifactStore, key: str, fallback: str) -> Any:
+    return store.get(key) if store.has(key) else store.require(fallback)
+
+
 def resolve_plan(
     dataset: LoadedDataset,
     plan: PreprocessPlan,
@@ -687,8 +691,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = _first_available(train_store, out_key, "raw.X")
+    y_train = _first_available(train_store, "labels.y", "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -701,8 +705,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = _first_available(test_store, out_key, "raw.X")
+        y_test = _first_available(test_store, "labels.y", "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From 62f595455a215e096d863390b1a00c80d0dabbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 13/61] fix: preprocess accepts datasets whose features are not
 numeric

---
 src/modssc/preprocess/services/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 7759093..dd215f3 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -257,7 +257,7 @@ def _maybe_log_gpu_info(
 
 
 def _maybe_warn_nonfinite(name: str, value: Any, *, max_elems: int = 1_000_000) -> None:
-    if not isinstance(value, np.ndarray):
+    if not isinstance(value, np.ndarray) or value.dtype.kind not in "fc":
         return
     if int(value.size) > max_elems:
         return
-- 
2.43.0


From 012f67f04f439b88b957435e5e098b09f0ce4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 14/61] fix: label encoding steps use the codes of the train
 split for the test split

---
 src/modssc/preprocess/steps/labels/encode.py  | 19 +++++++++++++++++--
 .../preprocess/steps/labels/ensure_onehot.py  | 15 ++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..bda1607 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
+from typing import Any
 
 import numpy as np
 
@@ -10,9 +11,23 @@ from modssc.supervised.utils import encode_labels
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    The first split seen (train) defines the codes; labels that only occur in a later split get
+    the codes that follow, so that a code means the same label in every split.
+    """
+
+    _classes: Any = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
         y = store.require("raw.y")
         y_enc, classes = encode_labels(y)
+        if self._classes is None:
+            self._classes = classes
+        else:
+            unseen = classes[~np.isin(classes, self._classes)]
+            merged = np.concatenate([self._classes, unseen])
+            order = np.argsort(merged, kind="stable")
+            codes = order[np.searchsorted(merged, classes, sorter=order)]
+            y_enc, classes = codes[y_enc].astype(np.int64), merged
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..a178e89 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
@@ -13,21 +13,26 @@ class EnsureOneHotLabelsStep:
     unlabeled_value: int = -1
     dtype: str = "float32"
 
+    # Classes of the first split that has labels (train): the columns of every split.
+    _classes: Any = field(default=None, init=False, repr=False)
+
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
         y_flat = y.reshape(-1)
         labeled = y_flat != int(self.unlabeled_value)
 
-        if labeled.any():
-            classes = np.unique(y_flat[labeled])
+        if self._classes is not None:
+            classes = self._classes
+        elif labeled.any():
+            classes = self._classes = np.unique(y_flat[labeled])
         else:
             classes = np.asarray([], dtype=y_flat.dtype)
 
         C = int(classes.size)
         onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
         if C > 0 and labeled.any():
-            rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
+            rows = np.nonzero(labeled & np.isin(y_flat, classes))[0]
+            cols = np.searchsorted(classes, y_flat[rows])
             onehot[rows, cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0


From 4acf6aae4f338343bdcd85b46c312cc32ad1bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 15/61] fix: node2vec and DGI preprocessing steps depend only
 on the preprocess seed

---
 src/modssc/preprocess/steps/graph/dgi.py      | 34 +++++++++++--------
 src/modssc/preprocess/steps/graph/node2vec.py | 10 ++++--
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index f3b18d1..d2f56a0 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -145,6 +145,8 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
+    torch.manual_seed(int(seed))
+
     encoder = _GCNEncoder(
         X_t.shape[1],
         hidden=int(hidden_dim),
@@ -158,8 +160,6 @@ def _train_dgi(
     )
     bce = torch.nn.BCEWithLogitsLoss()
 
-    torch.manual_seed(int(seed))
-
     for _epoch in range(int(unsup_epochs)):
         encoder.train()
         disc.train()
@@ -239,17 +239,21 @@ class GraphDGIStep:
 
         seed = int(rng.integers(0, 1 << 31))
 
-        emb = _train_dgi(
-            X_np,
-            edge_index_np,
-            edge_weight_np,
-            embedding_dim=int(self.embedding_dim),
-            hidden_dim=int(self.hidden_dim),
-            dropout=float(self.dropout),
-            unsup_epochs=int(self.unsup_epochs),
-            unsup_lr=float(self.unsup_lr),
-            add_self_loops=bool(self.add_self_loops),
-            device=str(self.device),
-            seed=seed,
-        )
+        torch = require(module="torch", extra="transductive-torch", purpose="graph.dgi")
+        # Initial weights, dropout and corruption come from the step seed; callers keep their own
+        # generator state.
+        with torch.random.fork_rng():
+            emb = _train_dgi(
+                X_np,
+                edge_index_np,
+                edge_weight_np,
+                embedding_dim=int(self.embedding_dim),
+                hidden_dim=int(self.hidden_dim),
+                dropout=float(self.dropout),
+                unsup_epochs=int(self.unsup_epochs),
+                unsup_lr=float(self.unsup_lr),
+                add_self_loops=bool(self.add_self_loops),
+                device=str(self.device),
+                seed=seed,
+            )
         return {"features.X": emb}
diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index 071920e..1aae76e 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from contextlib import nullcontext
 from dataclasses import dataclass
 from typing import Any
 
@@ -97,8 +98,13 @@ class GraphNode2VecStep:
         torch = require(module="torch", extra="transductive-torch", purpose="graph.node2vec")
         dev_name = resolve_device_name(self.device, torch=torch) or "cpu"
         device = torch.device(dev_name)
-        emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
-        ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+        # Initial embeddings come from the step seed, not from the state of the global generator.
+        random = getattr(torch, "random", None)
+        with random.fork_rng(devices=[]) if random is not None else nullcontext():
+            if random is not None:
+                random.default_generator.manual_seed(seed)
+            emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+            ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         optimizer = torch.optim.Adam(
             list(emb.parameters()) + list(ctx.parameters()), lr=float(self.embed_lr)
         )
-- 
2.43.0


From 838c2678ba115f4ef548e35f326183f563723de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 16/61] fix: sklearn kNN graphs keep k neighbours when points
 coincide

---
 src/modssc/graph/construction/backends/sklearn_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/construction/backends/sklearn_backend.py b/src/modssc/graph/construction/backends/sklearn_backend.py
index c3b25bc..9a0f107 100644
--- a/src/modssc/graph/construction/backends/sklearn_backend.py
+++ b/src/modssc/graph/construction/backends/sklearn_backend.py
@@ -38,7 +38,10 @@ def knn_edges_sklearn(
     dst = idx.reshape(-1)
     dist_flat = dist.reshape(-1)
     if not include_self:
-        mask = dst != src
+        keep = idx != np.arange(n_rows, dtype=np.int64)[:, None]
+        # With duplicate points the extra neighbor is not always the point itself.
+        keep &= np.cumsum(keep, axis=1) <= int(k)
+        mask = keep.reshape(-1)
         src = src[mask]
         dst = dst[mask]
         dist_flat = dist_flat[mask]
-- 
2.43.0


From 92fae706008d53209259cf06dbdb4cd6c18c024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 17/61] fix: dense adjacency sums repeated edges like the
 sparse format

---
 src/modssc/graph/featurization/ops/adjacency.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/modssc/graph/featurization/ops/adjacency.py b/src/modssc/graph/featurization/ops/adjacency.py
index b3ec6a4..00699ce 100644
--- a/src/modssc/graph/featurization/ops/adjacency.py
+++ b/src/modssc/graph/featurization/ops/adjacency.py
@@ -38,13 +38,10 @@ def adjacency_from_edge_index(
     dst = np.asarray(edge_index[1], dtype=np.int64)
 
     if format == "dense":
+        # Repeated edges add up, as in the sparse format.
         A = np.zeros((n_nodes, n_nodes), dtype=np.float32)
-        if edge_weight is None:
-            if src.size:
-                A[src, dst] = 1.0
-        else:
-            data = np.asarray(edge_weight, dtype=np.float32)
-            A[src, dst] = data
+        data = 1.0 if edge_weight is None else np.asarray(edge_weight, dtype=np.float32)
+        np.add.at(A, (src, dst), data)
         return A
 
     if format == "csr":
-- 
2.43.0


From 612addc0f818004a84d28565d9467c7237effd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 18/61] fix: damaged or half-written graph cache entries are
 rebuilt

---
 src/modssc/graph/cache.py                     | 63 +++++++++++++++----
 .../graph/construction/services/service.py    | 24 ++++---
 src/modssc/graph/featurization/api.py         | 24 ++++---
 3 files changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..2198249 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -5,6 +5,8 @@ import json
 import os
 import shutil
 import tempfile
+import zipfile
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
@@ -15,6 +17,7 @@ from platformdirs import user_cache_dir
 from modssc.runtime.paths import default_local_cache_subdir
 
 from .artifacts import DatasetViews, GraphArtifact
+from .errors import GraphValidationError
 
 GRAPH_CACHE_ENV = "MODSSC_GRAPH_CACHE_DIR"
 GRAPH_VIEWS_CACHE_ENV = "MODSSC_GRAPH_VIEWS_CACHE_DIR"
@@ -25,6 +28,21 @@ class GraphCacheError(RuntimeError):
     """Raised when a graph cache entry is missing or corrupted."""
 
 
+# What reading a damaged or half-written entry can raise.
+_CORRUPT_ENTRY_ERRORS = (
+    AttributeError,
+    EOFError,
+    GraphValidationError,
+    IndexError,
+    KeyError,
+    OSError,
+    TypeError,
+    ValueError,
+    zipfile.BadZipFile,
+    zlib.error,
+)
+
+
 def default_cache_dir() -> Path:
     override = os.environ.get(GRAPH_CACHE_ENV)
     if override:
@@ -80,7 +98,7 @@ def _safe_read_json(path: Path) -> dict[str, Any]:
     try:
         with open(path, encoding="utf-8") as f:
             data = json.load(f)
-    except json.JSONDecodeError as e:
+    except (ValueError, OSError) as e:
         raise GraphCacheError(f"Invalid json payload in {path}: {e}") from e
     if not isinstance(data, dict):
         raise GraphCacheError(f"Invalid json payload in {path}")
@@ -124,6 +142,9 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # The manifest goes first: an entry without manifest is incomplete.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
@@ -145,6 +166,9 @@ class GraphCache(_FingerprintCacheOps):
 
         if overwrite:
             self._clear_entry_dir(d)
+        else:
+            with contextlib.suppress(FileNotFoundError):
+                (d / "manifest.json").unlink()
 
         E = int(graph.edge_index.shape[1])
         shard_size = int(self.edge_shard_size) if self.edge_shard_size else 0
@@ -248,7 +272,12 @@ class GraphCache(_FingerprintCacheOps):
             raise GraphCacheError(f"Missing cached graph manifest: {manifest_path}")
 
         manifest = _safe_read_json(manifest_path)
+        try:
+            return self._graph_from_manifest(d, manifest), manifest
+        except _CORRUPT_ENTRY_ERRORS as e:
+            raise GraphCacheError(f"Corrupted cached graph in {d}: {e}") from e
 
+    def _graph_from_manifest(self, d: Path, manifest: dict[str, Any]) -> GraphArtifact:
         storage = manifest.get("_storage", {}).get("edge", {"kind": "single"})
         kind = storage.get("kind", "single")
         if kind == "sharded":
@@ -258,18 +287,21 @@ class GraphCache(_FingerprintCacheOps):
         else:
             edge_index, edge_weight = self._load_edges_single(d)
 
-        n_nodes = int(manifest.get("n_nodes"))
-        directed = bool(manifest.get("directed", False))
-        meta = dict(manifest.get("meta", {}))
+        if manifest.get("has_edge_weight") is False:
+            edge_weight = None  # left over from an earlier graph in the same entry
+        elif manifest.get("has_edge_weight") is True and edge_weight is None:
+            raise GraphCacheError(f"Missing cached edge weights in {d}")
+        n_edges = manifest.get("n_edges")
+        if n_edges is not None and int(n_edges) != int(edge_index.shape[1]):
+            raise GraphCacheError(f"Cached graph in {d} does not have {n_edges} edges")
 
-        graph = GraphArtifact(
-            n_nodes=n_nodes,
+        return GraphArtifact(
+            n_nodes=int(manifest.get("n_nodes")),
             edge_index=edge_index,
             edge_weight=edge_weight,
-            directed=directed,
-            meta=meta,
+            directed=bool(manifest.get("directed", False)),
+            meta=dict(manifest.get("meta", {})),
         )
-        return graph, manifest
 
     def purge(self) -> int:
         if not self.root.exists():
@@ -300,7 +332,9 @@ class ViewsCache(_FingerprintCacheOps):
     ) -> Path:
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
-        if overwrite and d.exists():
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
+        if overwrite:
             for p in d.iterdir():
                 if p.is_file():
                     p.unlink()
@@ -334,9 +368,12 @@ class ViewsCache(_FingerprintCacheOps):
         if not views_path.exists():
             raise GraphCacheError("Missing cached views.npz")
 
-        with np.load(views_path, allow_pickle=False) as npz:
-            views_dict = {k: np.asarray(npz[k]) for k in npz.files}
+        try:
+            with np.load(views_path, allow_pickle=False) as npz:
+                views_dict = {k: np.asarray(npz[k]) for k in npz.files}
+            meta = dict(manifest.get("meta", {}))
+        except _CORRUPT_ENTRY_ERRORS as e:
+            raise GraphCacheError(f"Corrupted cached views in {d}: {e}") from e
 
-        meta = dict(manifest.get("meta", {}))
         views = DatasetViews(views=views_dict, y=np.asarray(y), masks=dict(masks), meta=meta)
         return views, manifest
diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 8d3e778..070c27e 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -8,7 +8,7 @@ from typing import Any
 import numpy as np
 
 from ...artifacts import GraphArtifact
-from ...cache import GraphCache
+from ...cache import GraphCache, GraphCacheError
 from ...errors import GraphValidationError
 from ...fingerprint import fingerprint_array, fingerprint_dict
 from ...specs import GraphBuilderSpec
@@ -107,15 +107,19 @@ def build_graph(
     )
 
     if cache and cache_store.exists(g_fp):
-        graph, _ = cache_store.load(g_fp)
-        logger.info(
-            "Graph cached: fingerprint=%s n_nodes=%s n_edges=%s duration_s=%.3f",
-            g_fp,
-            graph.n_nodes,
-            int(graph.edge_index.shape[1]),
-            perf_counter() - start,
-        )
-        return graph
+        try:
+            graph, _ = cache_store.load(g_fp)
+        except GraphCacheError as e:
+            logger.warning("Graph cache entry unusable, rebuilding: %s", e)
+        else:
+            logger.info(
+                "Graph cached: fingerprint=%s n_nodes=%s n_edges=%s duration_s=%.3f",
+                g_fp,
+                graph.n_nodes,
+                int(graph.edge_index.shape[1]),
+                perf_counter() - start,
+            )
+            return graph
 
     # Optional resumable work directory inside the cache entry (only used by numpy backend).
     work_dir: Path | None = None
diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..3a59bfe 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -7,8 +7,8 @@ from time import perf_counter
 import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
-from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..cache import GraphCacheError, ViewsCache
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -59,14 +59,18 @@ def graph_to_views(
     )
 
     if cache_enabled and cache_store.exists(views_fp):
-        cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
-        logger.info(
-            "Graph views cached: fingerprint=%s views=%s duration_s=%.3f",
-            views_fp,
-            list(spec.views),
-            perf_counter() - start,
-        )
-        return cached
+        try:
+            cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
+        except GraphCacheError as e:
+            logger.warning("Graph views cache entry unusable, rebuilding: %s", e)
+        else:
+            logger.info(
+                "Graph views cached: fingerprint=%s views=%s duration_s=%.3f",
+                views_fp,
+                list(spec.views),
+                perf_counter() - start,
+            )
+            return cached
 
     views: dict[str, np.ndarray] = {}
     for name in spec.views:
-- 
2.43.0


From b3e4897a8d947ad20b50703f6c564e7586050313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 19/61] fix: cached graph views depend on the features and
 weights they are made of

---
 src/modssc/graph/featurization/api.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 3a59bfe..ef4b01a 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -18,9 +18,17 @@ from .views.struct import StructParams, struct_embeddings
 logger = logging.getLogger(__name__)
 
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+def _views_fingerprint(
+    *, graph_fingerprint: str, dataset: NodeDataset, spec: GraphFeaturizerSpec, seed: int
+) -> str:
+    # The graph fingerprint alone does not say which features or weights the views are made of.
+    weight = dataset.graph.edge_weight
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "n_nodes": int(dataset.graph.n_nodes),
+        "X": fingerprint_array(dataset.X) if {"attr", "diffusion"} & set(spec.views) else None,
+        "edge_index": fingerprint_array(dataset.graph.edge_index),
+        "edge_weight": fingerprint_array(weight) if weight is not None else None,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -51,7 +59,9 @@ def graph_to_views(
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp, dataset=dataset, spec=spec, seed=int(seed)
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
-- 
2.43.0


From acea55eb5756fdf6e5ff1318f51adc80fe9644c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 20/61] fix: bench graphs over train and test nodes have their
 own cache entry

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..d7cb039 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        # The graph over train and test nodes must not share a cache entry with the one over train.
+        if dataset_fingerprint is not None:
+            dataset_fingerprint = f"{dataset_fingerprint}:train+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0


From 89f3da1056c89fc5aee76e0c3bde14779be1b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 21/61] fix: concurrent builds of one graph neither fail nor
 mix their files

---
 src/modssc/graph/cache.py                     | 45 ++++++++++++---
 .../construction/backends/numpy_backend.py    | 56 ++++++++++++++-----
 src/modssc/graph/construction/builder.py      |  4 +-
 .../graph/construction/services/service.py    |  4 +-
 4 files changed, 84 insertions(+), 25 deletions(-)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index 2198249..d7cfd5a 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -5,6 +5,7 @@ import json
 import os
 import shutil
 import tempfile
+import uuid
 import zipfile
 import zlib
 from dataclasses import dataclass
@@ -105,6 +106,9 @@ def _safe_read_json(path: Path) -> dict[str, Any]:
     return data
 
 
+_PUBLISH_ATTEMPTS = 10
+
+
 class _FingerprintCacheOps:
     root: Path
 
@@ -117,7 +121,9 @@ class _FingerprintCacheOps:
     def list(self) -> list[str]:
         if not self.root.exists():
             return []
-        return sorted([p.name for p in self.root.iterdir() if p.is_dir()])
+        return sorted(
+            [p.name for p in self.root.iterdir() if p.is_dir() and not p.name.startswith(".tmp-")]
+        )
 
 
 @dataclass(frozen=True)
@@ -162,14 +168,36 @@ class GraphCache(_FingerprintCacheOps):
         overwrite: bool = True,
     ) -> Path:
         d = self.entry_dir(fingerprint)
-        d.mkdir(parents=True, exist_ok=True)
-
-        if overwrite:
-            self._clear_entry_dir(d)
-        else:
+        if not overwrite:
+            d.mkdir(parents=True, exist_ok=True)
             with contextlib.suppress(FileNotFoundError):
                 (d / "manifest.json").unlink()
+            self._write_entry(d, graph=graph, manifest=manifest)
+            return d
 
+        # Concurrent builders of one graph must not mix their files in its entry.
+        staging = d.parent / f".tmp-{uuid.uuid4().hex}"
+        replaced = d.parent / f"{staging.name}-replaced"
+        staging.mkdir(parents=True)
+        try:
+            self._write_entry(staging, graph=graph, manifest=manifest)
+            for attempt in range(_PUBLISH_ATTEMPTS):
+                self._clear_entry_dir(d)
+                try:
+                    os.replace(staging, d)
+                    break
+                except OSError:
+                    if attempt == _PUBLISH_ATTEMPTS - 1:
+                        raise
+                # Another builder published in between: move its files out of the way.
+                with contextlib.suppress(FileNotFoundError):
+                    os.replace(d, replaced)
+                shutil.rmtree(replaced, ignore_errors=True)
+        finally:
+            shutil.rmtree(staging, ignore_errors=True)
+        return d
+
+    def _write_entry(self, d: Path, *, graph: GraphArtifact, manifest: dict[str, Any]) -> None:
         E = int(graph.edge_index.shape[1])
         shard_size = int(self.edge_shard_size) if self.edge_shard_size else 0
 
@@ -196,7 +224,6 @@ class GraphCache(_FingerprintCacheOps):
 
         payload = {**manifest, **graph.to_dict(), "_storage": storage}
         _safe_write_json(d / "manifest.json", payload)
-        return d
 
     def _load_edges_single(self, d: Path) -> tuple[np.ndarray, np.ndarray | None]:
         try:
@@ -336,8 +363,8 @@ class ViewsCache(_FingerprintCacheOps):
             (d / "manifest.json").unlink()
         if overwrite:
             for p in d.iterdir():
-                if p.is_file():
-                    p.unlink()
+                if p.is_file() and p.suffix != ".tmp":  # a concurrent save's manifest
+                    p.unlink(missing_ok=True)
 
         # store views as a single compressed file
         arrays = {k: np.asarray(v) for k, v in views.views.items()}
diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index 9d2bd4e..cd0322e 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -1,7 +1,11 @@
 from __future__ import annotations
 
+import contextlib
+import logging
 import os
 import tempfile
+import zipfile
+import zlib
 from pathlib import Path
 from typing import Literal
 
@@ -9,6 +13,8 @@ import numpy as np
 
 Metric = Literal["cosine", "euclidean"]
 
+logger = logging.getLogger(__name__)
+
 
 def _safe_l2_normalize(X: np.ndarray, *, eps: float = 1e-12) -> np.ndarray:
     norms = np.linalg.norm(X, axis=1, keepdims=True)
@@ -37,6 +43,30 @@ def _load_npz(path: Path) -> dict[str, np.ndarray]:
         return {k: np.asarray(npz[k]) for k in npz.files}
 
 
+def _save_part(path: Path, **arrays: np.ndarray) -> None:
+    """Best effort: the saved part only spares work after an interruption."""
+    try:
+        _save_npz_atomic(path, **arrays)
+    except OSError as e:
+        logger.warning("Could not save partial graph result %s: %s", path, e)
+
+
+def _load_part(path: Path) -> tuple[np.ndarray, np.ndarray, np.ndarray] | None:
+    """The saved part, or None if there is none that can be read."""
+    try:
+        data = _load_npz(path)
+        return (
+            np.asarray(data["src"], dtype=np.int64),
+            np.asarray(data["dst"], dtype=np.int64),
+            np.asarray(data["dist"], dtype=np.float32),
+        )
+    except FileNotFoundError:
+        return None
+    except (EOFError, KeyError, OSError, ValueError, zipfile.BadZipFile, zlib.error) as e:
+        logger.warning("Ignoring unreadable partial graph result %s: %s", path, e)
+        return None
+
+
 def knn_edges_numpy(
     X: np.ndarray,
     *,
@@ -93,7 +123,8 @@ def knn_edges_numpy(
     # optional resumable storage
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        with contextlib.suppress(OSError):  # partial results are best effort
+            wd.mkdir(parents=True, exist_ok=True)
 
     src_parts: list[np.ndarray] = []
     dst_parts: list[np.ndarray] = []
@@ -103,11 +134,9 @@ def knn_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"knn_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if part_path is not None and resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
@@ -158,7 +187,7 @@ def knn_edges_numpy(
                 dflat = dflat[keep]
 
             if part_path is not None:
-                _save_npz_atomic(part_path, src=src, dst=dst, dist=dflat)
+                _save_part(part_path, src=src, dst=dst, dist=dflat)
 
         if src.size:
             src_parts.append(src)
@@ -202,7 +231,8 @@ def epsilon_edges_numpy(
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        with contextlib.suppress(OSError):  # partial results are best effort
+            wd.mkdir(parents=True, exist_ok=True)
 
     src_parts: list[np.ndarray] = []
     dst_parts: list[np.ndarray] = []
@@ -212,11 +242,9 @@ def epsilon_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"eps_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if part_path is not None and resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
@@ -255,7 +283,7 @@ def epsilon_edges_numpy(
                 dflat = np.asarray([], dtype=np.float32)
 
             if part_path is not None:
-                _save_npz_atomic(part_path, src=src, dst=dst, dist=dflat)
+                _save_part(part_path, src=src, dst=dst, dist=dflat)
 
         if src.size:
             src_parts.append(src)
diff --git a/src/modssc/graph/construction/builder.py b/src/modssc/graph/construction/builder.py
index b264fa4..b977faa 100644
--- a/src/modssc/graph/construction/builder.py
+++ b/src/modssc/graph/construction/builder.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import contextlib
 import logging
 from pathlib import Path
 
@@ -46,7 +47,8 @@ def build_raw_edges(
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        with contextlib.suppress(OSError):  # partial results are best effort
+            wd.mkdir(parents=True, exist_ok=True)
 
     if spec.scheme == "knn":
         if spec.k is None:
diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 070c27e..aea8486 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import contextlib
 import logging
 from pathlib import Path
 from time import perf_counter
@@ -125,7 +126,8 @@ def build_graph(
     work_dir: Path | None = None
     if cache and resume:
         work_dir = cache_store.entry_dir(g_fp) / "_work"
-        work_dir.mkdir(parents=True, exist_ok=True)
+        with contextlib.suppress(OSError):  # partial results are best effort
+            work_dir.mkdir(parents=True, exist_ok=True)
 
     # Build raw edges + distances
     logger.info(
-- 
2.43.0


From bdf42e0ba22e1a75e2bc7d6178d575b3f7b8301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 22/61] fix: naive Bayes classifiers accept the n_jobs runtime
 option

---
 .../backends/sklearn/naive_bayes.py           | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/naive_bayes.py b/src/modssc/supervised/backends/sklearn/naive_bayes.py
index 2f38eee..3a62714 100644
--- a/src/modssc/supervised/backends/sklearn/naive_bayes.py
+++ b/src/modssc/supervised/backends/sklearn/naive_bayes.py
@@ -16,8 +16,14 @@ class SklearnGaussianNBClassifier(SklearnProbaClassifier):
     classifier_id = "gaussian_nb"
     backend = "sklearn"
 
-    def __init__(self, *, var_smoothing: float = 1e-9, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        var_smoothing: float = 1e-9,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.var_smoothing = float(var_smoothing)
         self._model: Any | None = None
 
@@ -50,8 +56,15 @@ class SklearnMultinomialNBClassifier(SklearnProbaClassifier):
     classifier_id = "multinomial_nb"
     backend = "sklearn"
 
-    def __init__(self, *, alpha: float = 1.0, fit_prior: bool = True, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        alpha: float = 1.0,
+        fit_prior: bool = True,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.fit_prior = bool(fit_prior)
         self._model: Any | None = None
@@ -92,8 +105,9 @@ class SklearnBernoulliNBClassifier(SklearnProbaClassifier):
         binarize: float | None = 0.0,
         fit_prior: bool = True,
         seed: int | None = 0,
+        n_jobs: int | None = None,
     ):
-        super().__init__(seed=seed, n_jobs=None)
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.binarize = binarize if binarize is None else float(binarize)
         self.fit_prior = bool(fit_prior)
-- 
2.43.0


From f76cb28df242278c599264673d70f0c19137bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 23/61] fix: sklearn kNN classifier works with fewer than k
 samples like the other backends

---
 src/modssc/supervised/backends/sklearn/knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/sklearn/knn.py b/src/modssc/supervised/backends/sklearn/knn.py
index 122c661..be12467 100644
--- a/src/modssc/supervised/backends/sklearn/knn.py
+++ b/src/modssc/supervised/backends/sklearn/knn.py
@@ -54,7 +54,7 @@ class SklearnKNNClassifier(SklearnProbaClassifier):
         y_enc = self._set_classes_from_y(y)
 
         model = KNeighborsClassifier(
-            n_neighbors=int(self.k),
+            n_neighbors=min(int(self.k), int(X2.shape[0])),
             metric=str(self.metric),
             weights=str(self.weights),
             n_jobs=self.n_jobs,
-- 
2.43.0


From bb54178eb2cc06f7d2710e0a55e77a549417ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 24/61] fix: torch logistic regression starts from weights
 drawn with its seed

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From bdeb6aa4d4a7ba4d40064b59c4d5c46f75a4922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 25/61] fix: class probabilities of wrapped classifiers keep
 the ranking of decision scores

---
 src/modssc/inductive/methods/co_training.py   | 10 ++------
 .../methods/helpers/classifier_bridge.py      | 24 +++++++++++++++++++
 src/modssc/inductive/methods/pseudo_label.py  | 10 ++------
 src/modssc/inductive/methods/s4vm.py          | 11 ++-------
 src/modssc/inductive/methods/self_training.py | 10 ++------
 src/modssc/inductive/methods/setred.py        | 10 ++------
 src/modssc/inductive/methods/supervised.py    | 11 ++-------
 7 files changed, 36 insertions(+), 50 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..64f05b3 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -19,6 +19,7 @@ from modssc.inductive.methods.utils import (
     ensure_classifier_backend,
     ensure_cpu_device,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
     select_top_per_class,
     select_top_per_class_torch,
@@ -459,14 +460,7 @@ class CoTrainingMethod(InductiveMethod):
             X1 = _view_predict_payload_torch(v1, name=self._view_keys[0])
             X2 = _view_predict_payload_torch(v2, name=self._view_keys[1])
         scores = self._predict_scores_pair(X1, X2)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, data: Any) -> np.ndarray:
         if self._clf1 is None:
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..4c97c17 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -189,6 +189,30 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def normalize_scores(scores: Any, *, backend: str):
+    """Turn score rows into probabilities without changing the ranking inside a row.
+
+    Non-negative rows are divided by their sum (all-zero rows stay zero). Rows with a negative
+    entry hold decision values rather than frequencies, so they go through a softmax.
+    """
+    if backend == "numpy":
+        row_sum = scores.sum(axis=1, keepdims=True)
+        row_sum[row_sum == 0.0] = 1.0
+        proba = scores / row_sum
+        signed = (scores < 0).any(axis=1)
+        if signed.any():
+            raw = scores[signed]
+            exp = np.exp(raw - raw.max(axis=1, keepdims=True))
+            proba[signed] = exp / exp.sum(axis=1, keepdims=True)
+        return proba.astype(np.float32, copy=False)
+    torch = _torch()
+    row_sum = scores.sum(dim=1, keepdim=True)
+    row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
+    proba = scores / row_sum
+    signed = (scores < 0).any(dim=1, keepdim=True)
+    return torch.where(signed, torch.softmax(scores.to(proba.dtype), dim=1), proba)
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..71d585c 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -25,6 +25,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
     select_confident,
     select_confident_torch,
@@ -210,14 +211,7 @@ class PseudoLabelMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..b67a4eb 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -22,6 +22,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -193,15 +194,7 @@ class S4VMMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            if np.any(row_sum == 0.0):
-                row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..a74018d 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -473,14 +474,7 @@ class SelfTrainingMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..8e8efd3 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
     unwrap_torch_x,
 )
@@ -505,14 +506,7 @@ class SetredMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..9313e09 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -20,9 +20,9 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
 )
-from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
 
 logger = logging.getLogger(__name__)
@@ -100,14 +100,7 @@ class SupervisedMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
-- 
2.43.0


From 7bde469c74290ca0de3d1a20e6a8702c9e7675e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 26/61] fix: tri-training pseudo-labels and predictions use
 class labels, not score columns

---
 src/modssc/inductive/methods/tri_training.py | 69 ++++++++++++--------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..db2403a 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -42,6 +43,22 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _column_labels(clf: Any, scores: Any) -> list[Any]:
+    """Class label of every score column (the column index when the classifier names none)."""
+    classes = getattr(clf, "classes_", None)
+    if classes is None:
+        classes = getattr(clf, "classes_t_", None)
+    n_columns = int(scores.shape[1])
+    if classes is None:
+        return list(range(n_columns))
+    labels = classes.tolist() if hasattr(classes, "tolist") else list(classes)
+    if len(labels) != n_columns:
+        raise InductiveValidationError(
+            f"TriTraining classifier names {len(labels)} classes for {n_columns} score columns."
+        )
+    return labels
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -123,8 +140,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = np.asarray(_column_labels(clfs[j], scores_j))[scores_j.argmax(axis=1)]
+                    pred_k = np.asarray(_column_labels(clfs[k], scores_k))[scores_k.argmax(axis=1)]
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -220,8 +237,10 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                labels_j = torch.tensor(_column_labels(clfs[j], scores_j), device=scores_j.device)
+                labels_k = torch.tensor(_column_labels(clfs[k], scores_k), device=scores_k.device)
+                pred_j = labels_j[scores_j.argmax(dim=1)]
+                pred_k = labels_k[scores_k.argmax(dim=1)]
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -276,7 +295,8 @@ class TriTrainingMethod(InductiveMethod):
         logger.info("Finished %s.fit in %.3fs", self.info.method_id, perf_counter() - start)
         return self
 
-    def predict_proba(self, X: Any) -> np.ndarray:
+    def _proba_and_classes(self, X: Any) -> tuple[Any, list[Any] | None]:
+        """Averaged class probabilities with the label of each column (None when unnamed)."""
         if not self._clfs:
             raise RuntimeError("TriTrainingMethod is not fitted yet. Call fit() first.")
         backend = detect_backend(X)
@@ -286,7 +306,10 @@ class TriTrainingMethod(InductiveMethod):
         if backend == "numpy":
             X = flatten_if_numpy(X)
 
-        scores_list = [predict_scores(clf, X, backend=backend) for clf in self._clfs]
+        scores_list = [
+            normalize_scores(predict_scores(clf, X, backend=backend), backend=backend)
+            for clf in self._clfs
+        ]
 
         # Robustly align scores if shapes differ
         shapes = [s.shape[1] for s in scores_list]
@@ -365,40 +388,28 @@ class TriTrainingMethod(InductiveMethod):
 
                 avg = torch.mean(torch.stack(aligned_scores, dim=0), dim=0)
 
-            # Normalize row sums
-            if backend == "numpy":
-                row_sum = avg.sum(axis=1, keepdims=True)
-                row_sum[row_sum == 0.0] = 1.0
-                return (avg / row_sum).astype(np.float32, copy=False)
-            else:
-                row_sum = avg.sum(dim=1, keepdim=True)
-                row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-                return avg / row_sum
+            return normalize_scores(avg, backend=backend), sorted_classes
 
         # Fast path if shapes match
+        labels = next((c.tolist() for c in class_labels if c is not None), None)
         if backend == "numpy":
             avg = np.mean(np.stack(scores_list, axis=0), axis=0)
-            row_sum = avg.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (avg / row_sum).astype(np.float32, copy=False)
         else:
             torch = optional_import("torch", extra="inductive-torch")
             avg = torch.mean(torch.stack(scores_list, dim=0), dim=0)
-            row_sum = avg.sum(dim=1, keepdim=True)
-            row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-            return avg / row_sum
+        return normalize_scores(avg, backend=backend), labels
+
+    def predict_proba(self, X: Any) -> np.ndarray:
+        return self._proba_and_classes(X)[0]
 
     def predict(self, X: Any) -> np.ndarray:
-        proba = self.predict_proba(X)
+        proba, labels = self._proba_and_classes(X)
         backend = detect_backend(X)
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
-            if classes is None:
-                return idx
-            return np.asarray(classes)[idx]
+            return idx if labels is None else np.asarray(labels)[idx]
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
-        if classes_t is None:
+        if labels is None:
             return idx
-        return classes_t[idx]
+        torch = optional_import("torch", extra="inductive-torch")
+        return torch.tensor(labels, device=idx.device)[idx]
-- 
2.43.0


From f8cdbebe3a8feb453f0bc726e42937278cf2b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 27/61] fix: setred kNN graphs have no self-loops when points
 coincide

---
 src/modssc/inductive/methods/setred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index 8e8efd3..0fe1f79 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -71,7 +71,7 @@ def _build_knn_graph_numpy(X: np.ndarray, *, k: int) -> tuple[list[np.ndarray],
     neighbors: list[set[int]] = [set() for _ in range(n)]
     for i in range(n):
         order = np.argsort(dist[i])
-        for j in order[1 : k + 1]:
+        for j in order[order != i][:k]:
             neighbors[i].add(int(j))
             neighbors[int(j)].add(int(i))
     return [np.asarray(sorted(nbrs), dtype=np.int64) for nbrs in neighbors], dist
-- 
2.43.0


From 4ebb7a514953b26616bdc59d28ab18fb776e3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 28/61] fix: propagation and Poisson scores span every known
 class, not only labelled ones

label_propagation, label_spreading and poisson_learning sized their score
matrix by the number of distinct classes among the labelled nodes and then
one-hot encoded every label, so a labelled set that misses a class raised
ValueError (or silently depended on which labels were hidden).
---
 .../methods/classic/label_propagation.py      | 24 +++----------------
 .../methods/classic/label_spreading.py        | 23 +++---------------
 .../methods/pde/poisson_learning.py           |  8 +++----
 3 files changed, 9 insertions(+), 46 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/label_propagation.py b/src/modssc/transductive/methods/classic/label_propagation.py
index cfd713e..918805d 100644
--- a/src/modssc/transductive/methods/classic/label_propagation.py
+++ b/src/modssc/transductive/methods/classic/label_propagation.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -90,17 +91,7 @@ def label_propagation_numpy(
     if labeled_mask.shape != (n_nodes,):
         raise ValueError("labeled_mask must have shape (n_nodes,)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
-
+    n_classes = _infer_num_classes(y)
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
 
@@ -159,18 +150,9 @@ def label_propagation_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    # Determine n_classes from labeled nodes if possible
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
-
     # Build Y in torch then reuse the numpy helper to keep consistent behavior
     y_np = to_numpy(y)
+    n_classes = _infer_num_classes(y_np)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
     Y_np[~to_numpy(labeled_mask).astype(bool)] = 0.0
     Y = torch.from_numpy(Y_np).to(device=y.device)
diff --git a/src/modssc/transductive/methods/classic/label_spreading.py b/src/modssc/transductive/methods/classic/label_spreading.py
index 8d8444e..122ec30 100644
--- a/src/modssc/transductive/methods/classic/label_spreading.py
+++ b/src/modssc/transductive/methods/classic/label_spreading.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -72,17 +73,7 @@ def label_spreading_numpy(
     if not (0.0 <= float(spec.alpha) < 1.0):
         raise ValueError("alpha must be in [0, 1)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
-
+    n_classes = _infer_num_classes(y)
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
 
@@ -142,16 +133,8 @@ def label_spreading_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
-
     y_np = to_numpy(y)
+    n_classes = _infer_num_classes(y_np)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
     Y_np[~to_numpy(labeled_mask).astype(bool)] = 0.0
     Y = torch.from_numpy(Y_np).to(device=y.device)
diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..1f9e190 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -8,6 +8,7 @@ from typing import Any, Literal
 import numpy as np
 
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import DiffusionResult, _validate_graph_inputs, to_numpy
 from modssc.transductive.operators.clamp import labels_to_onehot
 from modssc.transductive.operators.laplacian import laplacian_matvec_numpy, laplacian_matvec_torch
@@ -111,9 +112,7 @@ def poisson_learning_numpy(
     if labeled_idx.size == 0:
         raise ValueError("PoissonLearning requires at least 1 labeled node.")
 
-    # Number of classes inferred from labeled nodes only
-    classes = np.unique(y[labeled_idx])
-    n_classes = int(classes.size)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -185,8 +184,7 @@ def poisson_learning_torch(
     if int(labeled_idx.numel()) == 0:
         raise ValueError("PoissonLearning requires at least 1 labeled node.")
 
-    classes = torch.unique(y_t[labeled_idx]).detach().cpu().numpy()
-    n_classes = int(classes.size)
+    n_classes = _infer_num_classes(to_numpy(y_t))
 
     # Build Y one-hot on CPU via numpy helper then move to torch (keeps consistent encoding)
     Y_np = labels_to_onehot(to_numpy(y_t), n_classes=n_classes).astype(np.float32, copy=False)
-- 
2.43.0


From a908b4837069c17db77c444ef8920cdcc36157db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 29/61] fix: poisson_learning torch backend accepts graphs
 without edge weights

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index 1f9e190..73cb92d 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -173,7 +173,10 @@ def poisson_learning_torch(
     if edge_index_t.ndim != 2 or edge_index_t.shape[0] != 2:
         raise ValueError(f"edge_index must have shape (2, E), got {tuple(edge_index_t.shape)}")
 
-    edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    if edge_weight is None:
+        edge_weight_t = None
+    else:
+        edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
     labeled_mask_t = torch.as_tensor(labeled_mask, dtype=torch.bool, device=device)
 
     n_nodes_i = int(n_nodes)
-- 
2.43.0


From fa9c7ed464793715cbf22d960f2e206eadc0cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 30/61] fix: seed torch before building transductive GNN models

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  5 ++---
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..c7c2b9e 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -89,6 +90,7 @@ class APPNPMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..94fd98e 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -109,6 +110,7 @@ class ChebNetMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..8209180 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -203,6 +209,7 @@ class GATMethod(TransductiveMethod):
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         # Make the dependency explicit in the exception message.
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..279476f 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -80,6 +87,7 @@ class GCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..0e63684 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -102,6 +109,7 @@ class GCNIIMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..4f8e221 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -67,6 +67,7 @@ class GRANDMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
@@ -101,8 +102,6 @@ class GRANDMethod(TransductiveMethod):
         best_val = float("inf")
         bad_epochs = 0
 
-        torch.manual_seed(int(seed))
-
         for _epoch in range(self.spec.max_epochs):
             model.train()
 
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..aa80d06 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -82,6 +83,7 @@ class GraphSAGEMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..598a9fd 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -284,6 +285,7 @@ class HGCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         if self.spec.num_layers < 3 or self.spec.num_layers % 2 == 0:
             raise ValueError("num_layers must be odd and >= 3 for H-GCN")
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..4836d33 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -202,6 +203,7 @@ class NGCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         if self.spec.K < 1:
             raise ValueError("K must be >= 1")
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..c9bc24b 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -80,6 +80,7 @@ class PlanetoidMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
 
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..b9eb69e 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -60,6 +67,7 @@ class SGCMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
-- 
2.43.0


From 0f1af843282fec0f0e9f533d6816b07a04574aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 31/61] fix: transductive data cache keeps its key objects
 alive

---
 src/modssc/transductive/methods/gnn/common.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index 9f85637..8171de8 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -317,8 +317,19 @@ def prepare_data_cached(
         norm_mode=norm_mode,
         dtype=dtype,
     )
+    graph = getattr(data, "graph", None)
     cache["key"] = key
     cache["prep"] = prep
+    # The key holds object ids: keep the objects alive so that no id can be reused.
+    cache["refs"] = (
+        data,
+        getattr(data, "X", None),
+        getattr(data, "y", None),
+        graph,
+        getattr(graph, "edge_index", None),
+        getattr(graph, "edge_weight", None),
+        getattr(data, "masks", None),
+    )
     return prep
 
 
-- 
2.43.0


From fe18d3d470cadea6b7d918d7b219a1bed089762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 32/61] fix: refitting a transductive GNN re-reads data changed
 in place

---
 src/modssc/transductive/methods/gnn/appnp.py     | 1 +
 src/modssc/transductive/methods/gnn/chebnet.py   | 1 +
 src/modssc/transductive/methods/gnn/gat.py       | 1 +
 src/modssc/transductive/methods/gnn/gcn.py       | 1 +
 src/modssc/transductive/methods/gnn/gcnii.py     | 1 +
 src/modssc/transductive/methods/gnn/grafn.py     | 1 +
 src/modssc/transductive/methods/gnn/grand.py     | 1 +
 src/modssc/transductive/methods/gnn/graphhop.py  | 1 +
 src/modssc/transductive/methods/gnn/graphsage.py | 1 +
 src/modssc/transductive/methods/gnn/h_gcn.py     | 1 +
 src/modssc/transductive/methods/gnn/n_gcn.py     | 1 +
 src/modssc/transductive/methods/gnn/planetoid.py | 1 +
 src/modssc/transductive/methods/gnn/sgc.py       | 1 +
 13 files changed, 13 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index c7c2b9e..2a39527 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -93,6 +93,7 @@ class APPNPMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 94fd98e..910c25f 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -113,6 +113,7 @@ class ChebNetMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 8209180..d2e22dd 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -212,6 +212,7 @@ class GATMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 279476f..442c221 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -90,6 +90,7 @@ class GCNMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 0e63684..6c482a1 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -112,6 +112,7 @@ class GCNIIMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grafn.py b/src/modssc/transductive/methods/gnn/grafn.py
index be08d50..a71eefd 100644
--- a/src/modssc/transductive/methods/gnn/grafn.py
+++ b/src/modssc/transductive/methods/gnn/grafn.py
@@ -198,6 +198,7 @@ class GraFNMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 4f8e221..db1a3ad 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -70,6 +70,7 @@ class GRANDMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphhop.py b/src/modssc/transductive/methods/gnn/graphhop.py
index 799545a..e1f9431 100644
--- a/src/modssc/transductive/methods/gnn/graphhop.py
+++ b/src/modssc/transductive/methods/gnn/graphhop.py
@@ -219,6 +219,7 @@ class GraphHopMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index aa80d06..8065d93 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -86,6 +86,7 @@ class GraphSAGEMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 598a9fd..7e85189 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -295,6 +295,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 4836d33..df647ae 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -215,6 +215,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index c9bc24b..3f23b9e 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -85,6 +85,7 @@ class PlanetoidMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
 
         # Walk generation on CPU
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device="cpu",
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9eb69e..5e61700 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -70,6 +70,7 @@ class SGCMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From 7e03a14bf1c549be6a0e6c0a7de9af9cd5f04211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 33/61] fix: temporal ensembling: correct the ensemble's
 startup bias by the number of accumulated epochs

---
 src/modssc/inductive/methods/temporal_ensembling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/temporal_ensembling.py b/src/modssc/inductive/methods/temporal_ensembling.py
index 4a8733e..9f0ffe5 100644
--- a/src/modssc/inductive/methods/temporal_ensembling.py
+++ b/src/modssc/inductive/methods/temporal_ensembling.py
@@ -160,7 +160,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
         for epoch in range(int(self.spec.max_epochs)):
             if ensemble_predictions is not None:
                 epoch_predictions = torch.zeros_like(ensemble_predictions)
-                bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                 bias = max(bias, 1e-12)
                 targets = ensemble_predictions / bias
             else:
@@ -217,7 +217,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
                         dtype=prob_u.dtype,
                     )
                     epoch_predictions = torch.zeros_like(ensemble_predictions)
-                    bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                    bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                     bias = max(bias, 1e-12)
                     targets = ensemble_predictions / bias
 
-- 
2.43.0


From a25ce963010ca319fd1096f3527ca1a52391f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 34/61] fix: mixmatch: draw the mixing weights from the seeded
 generator, not from torch's global one

---
 src/modssc/inductive/methods/mixmatch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..b738ba5 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -63,8 +63,9 @@ def _mixup(
     if alpha <= 0:
         lam = torch.ones((batch,), device=base.device, dtype=base.dtype)
     else:
-        dist = torch.distributions.Beta(float(alpha), float(alpha))
-        lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
+        conc = torch.full((batch, 2), float(alpha))
+        lam = torch._sample_dirichlet(conc, generator=generator)[:, 0]
+        lam = lam.to(device=base.device, dtype=base.dtype)
         lam = torch.max(lam, 1.0 - lam)
 
     perm = torch.randperm(batch, generator=generator, device="cpu")
-- 
2.43.0


From db5646e34334d406e8306d2998f3454d31ebbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 35/61] fix: adamatch, flexmatch, freematch, softmatch: start
 every fit from fresh running statistics

---
 src/modssc/inductive/methods/adamatch.py   | 2 ++
 src/modssc/inductive/methods/flexmatch.py  | 2 ++
 src/modssc/inductive/methods/free_match.py | 3 +++
 src/modssc/inductive/methods/softmatch.py  | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..00476ba 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -166,6 +166,8 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         bundle = ensure_model_bundle(self.spec.model_bundle)
         model = bundle.model
         optimizer = bundle.optimizer
+        self._p_model = None
+        self._p_target = None
         ensure_model_device(model, device=_get_device(X_l))
 
         if int(self.spec.batch_size) <= 0:
diff --git a/src/modssc/inductive/methods/flexmatch.py b/src/modssc/inductive/methods/flexmatch.py
index 8cf3316..650adfc 100644
--- a/src/modssc/inductive/methods/flexmatch.py
+++ b/src/modssc/inductive/methods/flexmatch.py
@@ -212,6 +212,8 @@ class FlexMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         bundle = ensure_model_bundle(self.spec.model_bundle)
         model = bundle.model
         optimizer = bundle.optimizer
+        self._selected_label = None
+        self._classwise_acc = None
         ensure_model_device(model, device=get_torch_device(X_l))
 
         if int(self.spec.batch_size) <= 0:
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..57fcaa6 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -196,6 +196,9 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         bundle = ensure_model_bundle(self.spec.model_bundle)
         model = bundle.model
         optimizer = bundle.optimizer
+        self._p_model = None
+        self._label_hist = None
+        self._time_p = None
         ensure_model_device(model, device=get_torch_device(X_l))
 
         if int(self.spec.batch_size) <= 0:
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..fb73fcc 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -204,6 +204,10 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         bundle = ensure_model_bundle(self.spec.model_bundle)
         model = bundle.model
         optimizer = bundle.optimizer
+        self._p_model = None
+        self._p_target = None
+        self._prob_max_mu_t = None
+        self._prob_max_var_t = None
         ensure_model_device(model, device=get_torch_device(X_l))
 
         if int(self.spec.batch_size) <= 0:
-- 
2.43.0


From 5d3aa3e1a9df6e295267c4bc17d4045ee9959cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 36/61] fix: adamatch, comatch, freematch, softmatch: running
 statistics no longer keep the graph of earlier steps

---
 src/modssc/inductive/methods/adamatch.py   |  2 +-
 src/modssc/inductive/methods/comatch.py    |  1 +
 src/modssc/inductive/methods/free_match.py |  4 ++--
 src/modssc/inductive/methods/softmatch.py  | 10 +++++-----
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index 00476ba..a16bd25 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -82,7 +82,7 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         mean_u = probs_u.mean(dim=0)
         mean_l = probs_l.mean(dim=0)
         momentum = float(self.spec.ema_p)
-        self._p_model = momentum * self._p_model + (1.0 - momentum) * mean_u
+        self._p_model = momentum * self._p_model.detach() + (1.0 - momentum) * mean_u
         self._p_target = momentum * self._p_target + (1.0 - momentum) * mean_l
 
         ratio = self._p_target / self._p_model.clamp_min(1e-6)
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 0b3ab60..b57cc34 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -212,6 +212,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             self._init_da(n_classes=int(probs_u.shape[1]), device=probs_u.device)
         assert self._da_queue is not None
         mean_u = probs_u.mean(dim=0)
+        self._da_queue = self._da_queue.detach()
         self._da_queue[self._da_ptr] = mean_u
         self._da_ptr = (self._da_ptr + 1) % int(self.spec.da_len)
         self._da_count = min(int(self.spec.da_len), self._da_count + 1)
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index 57fcaa6..24b9ecd 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -94,11 +94,11 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         m = float(self.spec.ema_p)
         value = max_probs.quantile(0.8) if bool(self.spec.use_quantile) else max_probs.mean()
-        self._time_p = self._time_p * m + (1.0 - m) * value
+        self._time_p = self._time_p.detach() * m + (1.0 - m) * value
         if bool(self.spec.clip_thresh):
             self._time_p = self._time_p.clamp(0.0, 0.95)
 
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model.detach() * m + (1.0 - m) * probs_u.mean(dim=0)
         hist = (
             probs_u.new_zeros((int(self._p_model.shape[0]),))
             if int(max_idx.numel()) == 0
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index fb73fcc..713e9e4 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -90,7 +90,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             )
         assert self._p_model is not None and self._p_target is not None
         m = float(self.spec.ema_p)
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model.detach() * m + (1.0 - m) * probs_u.mean(dim=0)
         if bool(self.spec.dist_uniform):
             target = self._p_target
         else:
@@ -125,8 +125,8 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 if int(max_probs.numel()) > 1
                 else max_probs.new_tensor(0.0)
             )
-            self._prob_max_mu_t = self._prob_max_mu_t * m + (1.0 - m) * mu
-            self._prob_max_var_t = self._prob_max_var_t * m + (1.0 - m) * var
+            self._prob_max_mu_t = self._prob_max_mu_t.detach() * m + (1.0 - m) * mu
+            self._prob_max_var_t = self._prob_max_var_t.detach() * m + (1.0 - m) * var
         else:
             num_classes = int(self._prob_max_mu_t.numel())
             mu = torch.zeros((num_classes,), device=max_probs.device)
@@ -136,8 +136,8 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 if int(cls_probs.numel()) > 1:
                     mu[c] = cls_probs.mean()
                     var[c] = cls_probs.var(unbiased=True)
-            self._prob_max_mu_t = self._prob_max_mu_t * m + (1.0 - m) * mu
-            self._prob_max_var_t = self._prob_max_var_t * m + (1.0 - m) * var
+            self._prob_max_mu_t = self._prob_max_mu_t.detach() * m + (1.0 - m) * mu
+            self._prob_max_var_t = self._prob_max_var_t.detach() * m + (1.0 - m) * var
 
     def fit(self, data: Any, *, device: DeviceSpec, seed: int = 0) -> SoftMatchMethod:
         start = perf_counter()
-- 
2.43.0


From b04986e36c1ffdc9322e275234300487b04fda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 37/61] fix: comatch: the memory queue takes the model's dtype,
 so float64 models no longer fail

---
 src/modssc/inductive/methods/comatch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index b57cc34..78a8402 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -145,12 +145,15 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         self._da_count: int = 0
         self._da_target: Any | None = None
 
-    def _init_memory(self, *, feat_dim: int, n_classes: int, device: Any) -> None:
+    def _init_memory(
+        self, *, feat_dim: int, n_classes: int, device: Any, dtype: Any | None = None
+    ) -> None:
         if int(self.spec.queue_size) <= 0:
             return
         torch = optional_import("torch", extra="inductive-torch")
-        self._queue_feats = torch.zeros((int(self.spec.queue_size), int(feat_dim)), device=device)
-        self._queue_probs = torch.zeros((int(self.spec.queue_size), int(n_classes)), device=device)
+        size = int(self.spec.queue_size)
+        self._queue_feats = torch.zeros((size, int(feat_dim)), device=device, dtype=dtype)
+        self._queue_probs = torch.zeros((size, int(n_classes)), device=device, dtype=dtype)
         self._queue_ptr = 0
         self._queue_count = 0
 
@@ -494,6 +497,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                         feat_dim=int(feats_uw.shape[1]),
                         n_classes=int(logits_lb.shape[1]),
                         device=feats_uw.device,
+                        dtype=feats_uw.dtype,
                     )
 
                 sup_loss = torch.nn.functional.cross_entropy(logits_lb, y_lb)
-- 
2.43.0


From f69b4a758d2697c70268c7854779606f93e4c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 38/61] fix: comatch: updating the memory queue no longer
 invalidates the gradient of the smoothed targets

---
 src/modssc/inductive/methods/comatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 78a8402..f8ad577 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -194,6 +194,9 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             return probs
         queue_feats = self._queue_feats[: self._queue_count]
         queue_probs = self._queue_probs[: self._queue_count]
+        if feats.requires_grad:
+            # the queue is overwritten before the backward pass needs these values
+            queue_feats, queue_probs = queue_feats.clone(), queue_probs.clone()
         sim = (feats @ queue_feats.t()) / float(self.spec.temperature)
         affinity = _row_normalize(sim.exp())
         smoothed = alpha * probs + (1.0 - alpha) * (affinity @ queue_probs)
-- 
2.43.0


From f68840735de5d25a2717d87a0229b73c117e5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 39/61] fix: simclr_v2: without fine-tuning, keep the distilled
 model instead of the pretrained one (or none)

---
 src/modssc/inductive/methods/simclr_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index 5ea09e6..e23a848 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -534,7 +534,7 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
 
         if int(self.spec.distill_epochs) > 0 and self.spec.student_bundle is not None:
             final_bundle = self.spec.student_bundle
-        elif int(self.spec.finetune_epochs) > 0:
+        elif int(self.spec.finetune_epochs) > 0 or int(self.spec.distill_epochs) > 0:
             final_bundle = finetune_bundle
         else:
             final_bundle = pretrain_bundle
-- 
2.43.0


From c46739bbbddaf974fc83fd22bafddd83284c7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 40/61] fix: simclr_v2: give the teacher back trainable after
 distillation, so a second fit works

---
 src/modssc/inductive/methods/simclr_v2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index e23a848..1af340f 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -442,6 +442,8 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
                 ensure_model_device(teacher_model, device=get_torch_device(X_uw))
                 _check_distill_models(student_model, teacher_model)
 
+            teacher_state = [(p, p.requires_grad) for p in teacher_model.parameters()]
+            teacher_training = teacher_model.training
             for p in teacher_model.parameters():
                 p.requires_grad_(False)
             teacher_model.eval()
@@ -529,6 +531,11 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
                     loss.backward()
                     optimizer.step()
 
+            # The teacher belongs to the caller's bundle: give it back trainable.
+            for p, requires_grad in teacher_state:
+                p.requires_grad_(requires_grad)
+            teacher_model.train(teacher_training)
+
             if student_bundle is not None:
                 finetune_bundle = student_bundle
 
-- 
2.43.0


From bff353efc92807a2836622fec6ecd04410da524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 41/61] fix: trinet: train heads over all the classes they
 predict, also those the labeled set misses

---
 src/modssc/inductive/methods/trinet.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/modssc/inductive/methods/trinet.py b/src/modssc/inductive/methods/trinet.py
index 08e7571..2347fff 100644
--- a/src/modssc/inductive/methods/trinet.py
+++ b/src/modssc/inductive/methods/trinet.py
@@ -64,6 +64,24 @@ def _forward_head(bundle: TorchModelBundle, features: Any) -> Any:
     return extract_logits(bundle.model(features))
 
 
+def _head_width(X: Any, shared_bundle: TorchModelBundle, head_bundle: TorchModelBundle) -> int:
+    """Number of classes a head predicts (the labeled set may miss the last ones)."""
+    torch = optional_import("torch", extra="inductive-torch")
+    models = (shared_bundle.model, head_bundle.model)
+    modes = [m.training for m in models]
+    for m in models:
+        m.eval()
+    with torch.no_grad():
+        logits = _forward_head(
+            head_bundle, _forward_shared(shared_bundle, slice_data(X, slice(0, 1)))
+        )
+    for m, mode in zip(models, modes, strict=True):
+        m.train(mode)
+    if int(logits.ndim) != 2:
+        raise InductiveValidationError("Head logits must be 2D (batch, classes).")
+    return int(logits.shape[1])
+
+
 def _soft_cross_entropy(logits: Any, targets: Any) -> Any:
     torch = optional_import("torch", extra="inductive-torch")
     log_probs = torch.log_softmax(logits, dim=1)
@@ -465,6 +483,7 @@ class TriNetMethod(ArgmaxPredictMixin, InductiveMethod):
         n_classes = int(y_l.max().item()) + 1
         if y_l.min().item() < 0:
             raise InductiveValidationError("y_l labels must be non-negative.")
+        n_classes = max(n_classes, _head_width(X_l, shared_bundle, head_bundles[0]))
         y_l_onehot = _one_hot(y_l, n_classes=n_classes)
 
         # Initialization with output smearing to create diverse heads.
-- 
2.43.0


From 52748fa553762996b99519d60f73f3edd505ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 42/61] fix: inductive slice_data: keep edge weights in step
 with the edges that survive slicing

---
 .../methods/helpers/torch_support.py          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index f77db81..c3ed10c 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -363,15 +363,26 @@ def slice_data(X: Any, idx: Any) -> Any:
                     subgraph_idx = torch.arange(start, stop, step, device=device)
 
                 # relabel_nodes=True ensures indices map to 0..len(idx)
-                edge_index, _ = subgraph(
-                    subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n
-                )
+                if isinstance(X.get("edge_weight"), torch.Tensor):
+                    # Weights belong to edges, so they are kept or dropped with them.
+                    edge_index, edge_weight = subgraph(
+                        subgraph_idx,
+                        X["edge_index"],
+                        X["edge_weight"],
+                        relabel_nodes=True,
+                        num_nodes=n,
+                    )
+                    batch_data["edge_weight"] = edge_weight
+                else:
+                    edge_index, _ = subgraph(
+                        subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n
+                    )
                 batch_data["edge_index"] = edge_index
             except ImportError:
                 pass
 
         for k, v in X.items():
-            if k in ("x", "edge_index"):
+            if k in batch_data or k == "edge_index":
                 continue
             if isinstance(v, torch.Tensor) and v.shape[0] == n:
                 batch_data[k] = v[idx]
-- 
2.43.0


From d613a6f337387c114c62fecb6ec01559120ce126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 43/61] fix: inductive concat_data: an unweighted graph joined
 to a weighted one counts its edges with weight 1

---
 src/modssc/inductive/methods/helpers/torch_support.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index c3ed10c..4289e24 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -264,9 +264,12 @@ def concat_data(items: list[Any]) -> Any:
                 ei = torch.as_tensor(ei, device=x_cat.device, dtype=torch.long)
             ei = ei + offset
             edge_indices.append(ei)
-            if "edge_weight" in g:
-                ew = g["edge_weight"]
-                if not isinstance(ew, torch.Tensor):
+            if any("edge_weight" in other for other in graphs):
+                # An edge without a weight counts as one of weight 1.
+                ew = g.get("edge_weight")
+                if ew is None:
+                    ew = torch.ones(int(ei.shape[1]), device=x_cat.device)
+                elif not isinstance(ew, torch.Tensor):
                     ew = torch.as_tensor(ew, device=x_cat.device)
                 edge_weights.append(ew)
             offset += int(g["x"].shape[0])
-- 
2.43.0


From efd14e0ed3ef657809dda3216254f1e9d41c2d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 44/61] fix: deep inductive methods: predict on an empty batch
 returns no labels instead of failing

---
 src/modssc/inductive/methods/helpers/torch_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index 4289e24..e945ff3 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -145,6 +145,8 @@ class ArgmaxPredictMixin:
 
     def predict(self, X: Any) -> Any:
         proba = self.predict_proba(X)
+        if int(proba.shape[0]) == 0:
+            return proba.new_empty((0,), dtype=_torch().int64)
         return proba.argmax(dim=1)
 
 
-- 
2.43.0


From 74acb28aa95b7ef794bae1675fb6ccc62a5e1543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 45/61] fix: deep_co_training, trinet: refuse labels outside
 the model's classes like the other methods do

---
 src/modssc/inductive/methods/deep_co_training.py | 2 ++
 src/modssc/inductive/methods/trinet.py           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/deep_co_training.py b/src/modssc/inductive/methods/deep_co_training.py
index b0e8c15..ce20bd3 100644
--- a/src/modssc/inductive/methods/deep_co_training.py
+++ b/src/modssc/inductive/methods/deep_co_training.py
@@ -113,6 +113,8 @@ def _fgsm_adversarial(
         # ... logic for targets ...
         if isinstance(y_l, torch.Tensor) and int(y_l.shape[0]) != n_l:
             raise InductiveValidationError("Labeled batch size mismatch.")
+        if int(y_l.min()) < 0 or int(y_l.max()) >= int(logits.shape[1]):
+            raise InductiveValidationError("y_l labels must be within [0, n_classes).")
         targets = torch.empty((int(logits.shape[0]),), dtype=torch.int64, device=logits.device)
         targets[:n_l] = y_l
         if int(logits.shape[0]) > n_l:
diff --git a/src/modssc/inductive/methods/trinet.py b/src/modssc/inductive/methods/trinet.py
index 2347fff..da6533e 100644
--- a/src/modssc/inductive/methods/trinet.py
+++ b/src/modssc/inductive/methods/trinet.py
@@ -480,10 +480,11 @@ class TriNetMethod(ArgmaxPredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.des_drop_fraction) <= 1.0):
             raise InductiveValidationError("des_drop_fraction must be in [0, 1].")
 
-        n_classes = int(y_l.max().item()) + 1
         if y_l.min().item() < 0:
             raise InductiveValidationError("y_l labels must be non-negative.")
-        n_classes = max(n_classes, _head_width(X_l, shared_bundle, head_bundles[0]))
+        n_classes = _head_width(X_l, shared_bundle, head_bundles[0])
+        if int(y_l.max().item()) >= n_classes:
+            raise InductiveValidationError("y_l labels must be within [0, n_classes).")
         y_l_onehot = _one_hot(y_l, n_classes=n_classes)
 
         # Initialization with output smearing to create diverse heads.
-- 
2.43.0


From 9f99b2bee82041e66868efc27081bab86fc8e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 46/61] fix: inductive slice_data: an empty slice of a graph is
 an empty graph, not an error

---
 src/modssc/inductive/methods/helpers/torch_support.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index e945ff3..1e89eb7 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -359,13 +359,12 @@ def slice_data(X: Any, idx: Any) -> Any:
 
                 subgraph_idx = idx
                 if isinstance(idx, slice):
-                    start, stop, step = idx.indices(n)
                     device = (
                         X["edge_index"].device
                         if isinstance(X["edge_index"], torch.Tensor)
                         else None
                     )
-                    subgraph_idx = torch.arange(start, stop, step, device=device)
+                    subgraph_idx = torch.arange(n, device=device)[idx]
 
                 # relabel_nodes=True ensures indices map to 0..len(idx)
                 if isinstance(X.get("edge_weight"), torch.Tensor):
-- 
2.43.0


From d235f0d283ab06e1b30294095597abed98393626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 47/61] fix: to_torch_dataset: dict inputs may carry entries
 that are not tensors

---
 src/modssc/inductive/adapters/torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/adapters/torch.py b/src/modssc/inductive/adapters/torch.py
index f89a722..7cf8ab2 100644
--- a/src/modssc/inductive/adapters/torch.py
+++ b/src/modssc/inductive/adapters/torch.py
@@ -181,7 +181,8 @@ def to_torch_dataset(
                 return
             if isinstance(obj, dict):
                 for value in obj.values():
-                    _check_expected_device(value)
+                    if hasattr(value, "device"):
+                        _check_expected_device(value)
                 return
             if obj.device != expected:
                 raise InductiveValidationError(
-- 
2.43.0


From e9bf7364e7735e05cbe82bde228f7da77a1dce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 48/61] fix: bench select_rows: keep edge weights and
 attributes in step with the edges that survive slicing

---
 bench/orchestrators/slicing.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index bc5eb09..1af99b9 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -36,7 +36,10 @@ def _infer_num_nodes(X: Mapping[str, Any]) -> int | None:
         return None
 
 
-def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> Any:
+def _slice_edge_index(
+    edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None
+) -> tuple[Any, np.ndarray]:
+    """Return the edges between the selected nodes and the positions of the edges kept."""
     try:
         import importlib
 
@@ -57,11 +60,12 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
 
     subset = torch.as_tensor(idx, dtype=torch.long, device=device)
     try:
-        sub_ei, _ = pyg_utils.subgraph(
+        sub_ei, _, edge_mask = pyg_utils.subgraph(
             subset,
             ei,
             relabel_nodes=True,
             num_nodes=None if num_nodes is None else int(num_nodes),
+            return_edge_mask=True,
         )
     except (RuntimeError, TypeError, ValueError) as exc:
         raise BenchRuntimeError(
@@ -69,9 +73,10 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
             f"failed to slice edge_index with relabel_nodes=True: {exc}",
         ) from exc
 
+    kept = np.flatnonzero(edge_mask.detach().cpu().numpy())
     if is_torch_tensor(edge_index):
-        return sub_ei
-    return sub_ei.detach().cpu().numpy()
+        return sub_ei, kept
+    return sub_ei.detach().cpu().numpy(), kept
 
 
 def _slice_tensor(x: Any, idx: np.ndarray) -> Any:
@@ -114,9 +119,18 @@ def select_rows(
         out: dict[str, Any] = {}
         num_nodes = _infer_num_nodes(X)
         if "edge_index" in X:
-            out["edge_index"] = _slice_edge_index(X["edge_index"], idx_arr, num_nodes=num_nodes)
+            out["edge_index"], edges_kept = _slice_edge_index(
+                X["edge_index"], idx_arr, num_nodes=num_nodes
+            )
+            # Weights and attributes belong to edges, so they are kept or dropped with them.
+            for k in ("edge_weight", "edge_attr"):
+                v = X.get(k)
+                if is_torch_tensor(v):
+                    out[k] = _slice_tensor(v, edges_kept)
+                elif isinstance(v, np.ndarray):
+                    out[k] = v[edges_kept]
         for k, v in X.items():
-            if k == "edge_index":
+            if k in out:
                 continue
             if is_torch_tensor(v):
                 if _should_slice_by_dim0(v, idx_arr):
-- 
2.43.0


From 1a1aef3b45b57ccb797a4f406300b184177643dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 49/61] fix: bench evaluate_inductive: score the labels the
 method predicts, not score column numbers

---
 bench/orchestrators/evaluation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..d0a0bb2 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -234,6 +234,15 @@ def _infer_method_device(method: Any) -> Any | None:
     return None
 
 
+def _predicted_labels(method: Any, X: Any) -> np.ndarray:
+    # Score columns follow the classes the method saw, which need not be 0..K-1: a labeled set
+    # may miss a class. The method itself knows which label a column stands for.
+    predict = getattr(method, "predict", None)
+    if callable(predict):
+        return labels_1d(predict(X))
+    return predict_labels(to_numpy(method.predict_proba(X)))
+
+
 def evaluate_inductive(
     *,
     method: Any,
@@ -287,13 +296,11 @@ def evaluate_inductive(
                 strict=strict,
             )
             data = InductiveDataset(X_l=X, y_l=y, views=views_payload)
-            scores = method.predict_proba(data)
+            y_pred = _predicted_labels(method, data)
         else:
-            scores = method.predict_proba(X)
+            y_pred = _predicted_labels(method, X)
 
-        scores_np = to_numpy(scores)
         y_true = labels_1d(y)
-        y_pred = predict_labels(scores_np)
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
-- 
2.43.0


From 1acdda91991fc0c2a6d66864099bbd9c1090319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 50/61] fix: bench select_rows: slice only per-node rows of a
 graph and update its num_nodes

---
 bench/orchestrators/slicing.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index 1af99b9..6951494 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -91,15 +91,18 @@ def _slice_sequence(x: list[Any], idx: np.ndarray) -> list[Any]:
     return [x[int(i)] for i in idx.tolist()]
 
 
-def _should_slice_by_dim0(x: Any, idx: np.ndarray) -> bool:
-    if idx.size == 0:
-        return True
+def _should_slice_by_dim0(x: Any, idx: np.ndarray, *, num_nodes: int | None) -> bool:
     shape = getattr(x, "shape", None)
     if shape is None:
         return False
     try:
         if len(shape) == 0:
             return False
+        if num_nodes is not None:
+            # Only what has one row per node is sliced; tables of another length are shared.
+            return int(shape[0]) == int(num_nodes)
+        if idx.size == 0:
+            return True
         return int(shape[0]) > int(idx.max())
     except (TypeError, ValueError):
         return False
@@ -132,20 +135,23 @@ def select_rows(
         for k, v in X.items():
             if k in out:
                 continue
+            if k == "num_nodes" and v is not None and num_nodes is not None:
+                out[k] = int(idx_arr.size)
+                continue
             if is_torch_tensor(v):
-                if _should_slice_by_dim0(v, idx_arr):
+                if _should_slice_by_dim0(v, idx_arr, num_nodes=num_nodes):
                     out[k] = _slice_tensor(v, idx_arr)
                 else:
                     out[k] = v
                 continue
             if isinstance(v, np.ndarray):
-                if _should_slice_by_dim0(v, idx_arr):
+                if _should_slice_by_dim0(v, idx_arr, num_nodes=num_nodes):
                     out[k] = v[idx_arr]
                 else:
                     out[k] = v
                 continue
             if isinstance(v, list):
-                if _should_slice_by_dim0(np.asarray(v, dtype=object), idx_arr):
+                if _should_slice_by_dim0(np.asarray(v, dtype=object), idx_arr, num_nodes=num_nodes):
                     out[k] = _slice_sequence(v, idx_arr)
                 else:
                     out[k] = v
-- 
2.43.0


From c3c8b4604b5aab13d98dcb205234bbb441c827cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 51/61] fix: bench: size models by class ids, so a class
 missing from the labeled set does not shrink them

---
 bench/orchestrators/method_inductive.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bench/orchestrators/method_inductive.py b/bench/orchestrators/method_inductive.py
index f060826..41d2e65 100644
--- a/bench/orchestrators/method_inductive.py
+++ b/bench/orchestrators/method_inductive.py
@@ -290,11 +290,15 @@ def _build_spec(method_cls: type[Any], params: dict[str, Any], *, strict: bool)
 
 
 def _infer_num_classes(y: Any) -> int:
+    # Labels are class ids: a labeled set {0, 2} needs three outputs, not two.
     if is_torch_tensor(y):
         torch = _torch_module()
-        return int(torch.unique(y).numel())
-    y_arr = np.asarray(y)
-    return int(np.unique(y_arr).size)
+        classes = torch.unique(y)
+        n_classes = int(classes.numel())
+        return max(n_classes, int(classes.max()) + 1) if n_classes else 0
+    classes = np.unique(np.asarray(y))
+    n_classes = int(classes.size)
+    return max(n_classes, int(classes.max()) + 1) if n_classes else 0
 
 
 def _inject_model_bundle(
-- 
2.43.0


From 1bbe0d582e37e5f3df32c5f588e15486430e70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 52/61] fix: bench limits: an explicit null option does not
 escape the limit

---
 bench/limits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/limits.py b/bench/limits.py
index 89f1b40..9340fed 100644
--- a/bench/limits.py
+++ b/bench/limits.py
@@ -152,7 +152,8 @@ def _clamp_key(
 ) -> None:
     if limit is None:
         return
-    if key not in container:
+    if container.get(key) is None:
+        # An explicit null asks for no limit, which the limit overrides like any larger value.
         if set_if_missing:
             container[key] = int(limit)
             changes.append(f"{path}.{key}: set to {int(limit)}")
-- 
2.43.0


From 357d570d64f2d935c895ac1708d3b25e8fd4c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 53/61] fix: bench HPO: run trials within the configured
 limits, like the run they select

---
 bench/orchestrators/hpo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..c8e65d0 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -99,6 +100,10 @@ def run_hpo(
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
             patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            # A trial runs within the limits that the final run of its params will have.
+            patched_dict, _, _ = apply_limits(
+                patched_dict, limits=base_cfg.limits, strict=base_cfg.run.benchmark_mode
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From 52c3e9acb7c813f5a2dd192fe5b5d83978b7a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 54/61] fix: bench seed sweep: a sweep with runs that never
 completed is not a success

---
 bench/orchestrators/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 6c74638..97c86d0 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -162,7 +162,7 @@ def write_seed_sweep_summary(
         )
 
     failed_count = len(run_entries) - len(successful_reports)
-    if failed_count == 0:
+    if failed_count == 0 and len(run_entries) >= len(requested_seeds):
         status = "success"
     elif successful_reports:
         status = "partial_failure"
-- 
2.43.0


From 8be53acb7cdb9f373eaf783c3a52b37a637b1684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 55/61] fix: bench schema: run.seed, run.output_dir, device and
 mode settings are type-checked like the others

---
 bench/schema.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bench/schema.py b/bench/schema.py
index 20bd6e4..089e791 100644
--- a/bench/schema.py
+++ b/bench/schema.py
@@ -294,10 +294,11 @@ class ExperimentConfig:
                 "run.fail_fast must be true when run.benchmark_mode=true",
                 code="E_BENCH_FAIL_FAST_REQUIRED",
             )
+        run_seed = _optional_int(run, "seed")
         run_cfg = RunConfig(
             name=_require_str(run, "name", name="run"),
-            seed=int(run.get("seed", 0)),
-            output_dir=str(run.get("output_dir", "modssc_cache/output")),
+            seed=0 if run_seed is None else run_seed,
+            output_dir=_optional_str(run, "output_dir") or "modssc_cache/output",
             seeds=_optional_seed_list(run, "seeds", name="run"),
             fail_fast=fail_fast,
             log_level=_optional_str(run, "log_level"),
@@ -410,7 +411,7 @@ class ExperimentConfig:
             augmentation_cfg = AugmentationConfig(
                 enabled=_optional_bool(aug, "enabled", default=True),
                 seed=_optional_int(aug, "seed"),
-                mode=str(aug.get("mode", "fixed")),
+                mode=_optional_str(aug, "mode") or "fixed",
                 weak=_optional_mapping(aug, "weak"),
                 strong=_optional_mapping(aug, "strong"),
                 modality=_optional_str(aug, "modality"),
@@ -424,8 +425,8 @@ class ExperimentConfig:
         device_raw = _as_mapping(method.get("device", {}), name="method.device")
         _check_unknown(device_raw, {"device", "dtype", "resolved_device"}, name="method.device")
         device = DeviceConfig(
-            device=str(device_raw.get("device", "cpu")),
-            dtype=str(device_raw.get("dtype", "float32")),
+            device=_optional_str(device_raw, "device") or "cpu",
+            dtype=_optional_str(device_raw, "dtype") or "float32",
             resolved_device=_optional_str(device_raw, "resolved_device"),
         )
         model_cfg = None
-- 
2.43.0


From 65e59e5321852b832be98df262b94628f6469da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 56/61] fix: load_plan: refuse a step without an id instead of
 naming it 'None'

---
 src/modssc/preprocess/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/plan.py b/src/modssc/preprocess/plan.py
index cee460c..a4a86c2 100644
--- a/src/modssc/preprocess/plan.py
+++ b/src/modssc/preprocess/plan.py
@@ -65,7 +65,7 @@ def load_plan(path: str | Path) -> PreprocessPlan:
     for item in steps_raw:
         if not isinstance(item, Mapping):
             raise ValueError("Each step must be a mapping")
-        step_id = str(item.get("id") or item.get("step_id"))
+        step_id = str(item.get("id") or item.get("step_id") or "")
         if not step_id:
             raise ValueError("Each step must define 'id'")
         params = item.get("params", {}) or {}
-- 
2.43.0


From cb90e6d01900cc350a1e4bcfbc422815bf8046b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 57/61] fix: cli: modssc --log-level is no longer reset by the
 subcommand's own callback

---
 src/modssc/runtime/logging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modssc/runtime/logging.py b/src/modssc/runtime/logging.py
index c0c0f59..f1439de 100644
--- a/src/modssc/runtime/logging.py
+++ b/src/modssc/runtime/logging.py
@@ -101,7 +101,10 @@ def _configure_logger(name: str, *, level: int, fmt: str) -> None:
 
 def add_log_level_callback(app: typer.Typer) -> None:
     @app.callback()
-    def _log_level_callback(log_level: LogLevelOption = None) -> None:
+    def _log_level_callback(ctx: typer.Context, log_level: LogLevelOption = None) -> None:
+        if log_level is None and ctx.parent is not None:
+            # The enclosing command has already applied its own option or the environment.
+            return
         try:
             resolved = resolve_log_level(log_level)
         except ValueError as exc:
-- 
2.43.0


From bee72bc963abc0632fa4a3824ea7f69a4c37bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 58/61] fix: cli: datasets cache purge accepts the curated
 dataset key it documents

---
 src/modssc/cli/datasets.py                 | 6 +++++-
 src/modssc/data_loader/services/service.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modssc/cli/datasets.py b/src/modssc/cli/datasets.py
index 5538d6e..0c63124 100644
--- a/src/modssc/cli/datasets.py
+++ b/src/modssc/cli/datasets.py
@@ -148,7 +148,11 @@ def cache_purge(
         api.cache.purge_fingerprint(layout, dataset_or_fp)
         typer.echo(f"Purged fingerprint: {dataset_or_fp}")
     else:
-        fps = api.cache.purge_dataset(layout, dataset_or_fp)
+        try:
+            uri = api.canonical_uri(dataset_or_fp)
+        except DataLoaderError as exc:
+            exit_with_error(str(exc))
+        fps = api.cache.purge_dataset(layout, uri)
         typer.echo(f"Purged variants: {len(fps)}")
 
 
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 7b7ea7b..05218a5 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -395,6 +395,13 @@ def _provider_extra(provider: str) -> str | None:
     return mapping.get(provider)
 
 
+def canonical_uri(dataset_id: str) -> str:
+    """Canonical URI under which a curated key is cached; anything else is returned as given."""
+    if dataset_id not in DATASET_CATALOG:
+        return dataset_id
+    return _resolve_identity(DatasetRequest(id=dataset_id)).canonical_uri
+
+
 def _resolve_identity(req: DatasetRequest) -> DatasetIdentity:
     # catalog key
     if req.id in DATASET_CATALOG:
-- 
2.43.0


From 8f9f5be15fb43a572db234d671852280e3f8be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 59/61] fix: cli: graph views build --no-cache no longer writes
 the graph to the disk cache

---
 src/modssc/cli/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/cli/graph.py b/src/modssc/cli/graph.py
index 9d77b01..fb44328 100644
--- a/src/modssc/cli/graph.py
+++ b/src/modssc/cli/graph.py
@@ -263,7 +263,7 @@ def views_build_cmd(
         radius=float(radius),
     )
     try:
-        g = build_graph(X, spec=gspec, seed=int(seed), cache=True)
+        g = build_graph(X, spec=gspec, seed=int(seed), cache=bool(cache))
     except GraphError as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Graph build failed for dataset %s", dataset)
-- 
2.43.0


From 6fa44a78ca140a3a8a3c48aca825f353dd39d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 60/61] fix: data_loader: purging an empty or path-like
 fingerprint no longer deletes other directories

---
 src/modssc/cli/datasets.py      | 5 ++++-
 src/modssc/data_loader/cache.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/modssc/cli/datasets.py b/src/modssc/cli/datasets.py
index 0c63124..04c2657 100644
--- a/src/modssc/cli/datasets.py
+++ b/src/modssc/cli/datasets.py
@@ -145,7 +145,10 @@ def cache_purge(
         configure_logging(log_level)
     layout = api._layout(cache_dir)
     if fingerprint:
-        api.cache.purge_fingerprint(layout, dataset_or_fp)
+        try:
+            api.cache.purge_fingerprint(layout, dataset_or_fp)
+        except DataLoaderError as exc:
+            exit_with_error(str(exc))
         typer.echo(f"Purged fingerprint: {dataset_or_fp}")
     else:
         try:
diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index eba4830..789a240 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -12,7 +12,7 @@ from typing import Any
 
 from platformdirs import user_cache_dir
 
-from modssc.data_loader.errors import ManifestError
+from modssc.data_loader.errors import DataLoaderError, ManifestError
 from modssc.data_loader.manifest import Manifest, read_manifest
 from modssc.runtime.paths import default_local_cache_subdir
 from modssc.utils.io import atomic_write_text as _atomic_write_text
@@ -293,6 +293,9 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
+    # Anything but the name of an entry would reach other directories, or all the entries at once.
+    if fingerprint in ("", ".", "..") or Path(fingerprint).name != fingerprint:
+        raise DataLoaderError(f"Not a dataset fingerprint: {fingerprint!r}")
     # The manifest marks a complete entry: it goes first.
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
-- 
2.43.0


From 639830ec67f1b09a354de1e198ea46bff4a556a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 61/61] fix: errors: exceptions raised inside a context manager
 are no longer replaced by FrozenInstanceError

OptionalDependencyError and BenchRuntimeError were frozen dataclasses; contextlib
assigns __traceback__ on the way out of a with block, which a frozen dataclass
refuses, so the real error was lost (e.g. in download_dataset under its lock).
---
 bench/errors.py                   | 2 +-
 src/modssc/data_loader/errors.py  | 2 +-
 src/modssc/inductive/errors.py    | 2 +-
 src/modssc/preprocess/errors.py   | 2 +-
 src/modssc/transductive/errors.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bench/errors.py b/bench/errors.py
index e5e4ebf..c9b0860 100644
--- a/bench/errors.py
+++ b/bench/errors.py
@@ -6,7 +6,7 @@ from dataclasses import dataclass
 _CODE_RE = re.compile(r"^(E_BENCH_[A-Z0-9_]+):")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class BenchRuntimeError(RuntimeError):
     code: str
     message: str
diff --git a/src/modssc/data_loader/errors.py b/src/modssc/data_loader/errors.py
index f6aa37b..7f9428f 100644
--- a/src/modssc/data_loader/errors.py
+++ b/src/modssc/data_loader/errors.py
@@ -24,7 +24,7 @@ class ProviderNotFoundError(DataLoaderError):
         super().__init__(f"Unknown provider: {provider!r}")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, DataLoaderError):
     """Raised when an optional dependency (extra) required by a provider is missing."""
 
diff --git a/src/modssc/inductive/errors.py b/src/modssc/inductive/errors.py
index a5cb893..66105ad 100644
--- a/src/modssc/inductive/errors.py
+++ b/src/modssc/inductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
diff --git a/src/modssc/preprocess/errors.py b/src/modssc/preprocess/errors.py
index f324cb0..feed0cb 100644
--- a/src/modssc/preprocess/errors.py
+++ b/src/modssc/preprocess/errors.py
@@ -17,7 +17,7 @@ class PreprocessCacheError(PreprocessError):
     """Raised when cached artifacts are missing, corrupted, or inconsistent."""
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, PreprocessError):
     """Raised when an optional dependency required by a step/model is missing."""
 
diff --git a/src/modssc/transductive/errors.py b/src/modssc/transductive/errors.py
index 26ff7cb..fdcd821 100644
--- a/src/modssc/transductive/errors.py
+++ b/src/modssc/transductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
-- 
2.43.0

