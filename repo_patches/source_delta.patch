From 7f498603fd935a52e36dd161aa5a01b9c0fa228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 01/35] fix: report I/O errors of HDF5 dataset writes instead
 of losing the data silently

---
 src/pyhipp/io/h5/named_objs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c09126d..4402311 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -142,7 +142,11 @@ class DatasetManager(Obj):
         '''
         if key not in self:
             raise KeyError(f'Dataset {key} not found')
-        self._raw[key][...] = value
+        val: h5py.Dataset = self._raw[key]
+        val[...] = value
+        # h5py ignores errors met when a dataset handle is dropped, so have
+        # buffered data written while a failure can still be raised.
+        val.flush()
 
     def __contains__(self, key):
         if key not in self._raw:
@@ -179,6 +183,7 @@ class DatasetManager(Obj):
             val[...] = data
         else:
             val = self._raw.create_dataset(key, data=data)
+        val.flush()     # see __setitem__()
 
         return Dataset(val)
 
@@ -281,6 +286,7 @@ class Dataset(NamedObj):
 
     def __setitem__(self, key, val) -> None:
         self._raw[key] = val
+        self._raw.flush()   # see DatasetManager.__setitem__()
 
     @property
     def dtype(self):
-- 
2.43.0


From 43b5d4df6a11611d0aadf8c623b55a7b583ac028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 02/35] fix: AttrManager.create_empty() always raised TypeError

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index 4402311..c4e2ca1 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -82,7 +82,7 @@ class AttrManager(Obj):
             if flag == 'x':
                 raise ValueError(f'Redundant key {key}')
         else:
-            self._raw.create(key, shape=shape, dtype=dtype)
+            self._raw.create(key, np.zeros(shape, dtype=dtype), dtype=dtype)
 
     def keys(self) -> KeyList:
         return KeyList(self.__keys())
-- 
2.43.0


From cd84abe69705092cb9ef409c9a112f2619480dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 03/35] fix: txt_to_h5() ignored d_flag when the target is a
 file name

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index 939c99e..b260109 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -16,7 +16,7 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
     '''
     if isinstance(f_out, (str, Path)):
         with File(f_out, f_flag) as _f_out:
-            txt_to_h5(f_in, _f_out, dtype)
+            txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
     dsets = np.loadtxt(f_in, dtype=dtype)
-- 
2.43.0


From 83f7d5267c13884ec66c0f69e67d9a4353e3de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 04/35] fix: Fortran sections of a wrong size or cut short were
 returned as data; skip_rec() refused scalar types

---
 src/pyhipp/io/binary/fortran.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 9db155d..2eadd79 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -39,16 +39,21 @@ class BinaryFile(HasDictRepr):
     def load_rec(self, dtype: np.dtype, n: int = None):
         if n is None:
             return self.load_rec(dtype, n=1)[0]
-        return np.fromfile(self._file, dtype=dtype, count=n)
+        data = np.fromfile(self._file, dtype=dtype, count=n)
+        if n >= 0 and len(data) != n:
+            raise EOFError(f'Expected {n} records, got {len(data)}')
+        return data
 
     def skip_sect(self, dtype: np.dtype, n: int = None):
         n1 = self.load_rec(np.int32)
+        self._check_sect_size(n1, dtype, n)
         self.skip_rec(dtype, n=n)
         n2 = self.load_rec(np.int32)
         assert n1 == n2
 
     def load_sect(self, dtype: np.dtype, n: int = None) -> np.ndarray:
         n1 = self.load_rec(np.int32)
+        self._check_sect_size(n1, dtype, n)
         data = self.load_rec(dtype, n=n)
         n2 = self.load_rec(np.int32)
         assert n1 == n2
@@ -63,4 +68,11 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return dtype.itemsize * n
+        return np.dtype(dtype).itemsize * n
+
+    def _check_sect_size(self, n_bytes: int, dtype: np.dtype, n: int = None):
+        size = self._rec_size(dtype, n)
+        if n_bytes != size:
+            raise ValueError(
+                f'Section of {n_bytes} bytes does not hold the requested '
+                f'{size} bytes')
-- 
2.43.0


From 51b383ba8de78e961c7ffda703973e9314724cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 05/35] fix: Excel.load_file(as_datatables=True) always failed

---
 src/pyhipp/io/excel/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/excel/__init__.py b/src/pyhipp/io/excel/__init__.py
index c368271..e258158 100644
--- a/src/pyhipp/io/excel/__init__.py
+++ b/src/pyhipp/io/excel/__init__.py
@@ -74,8 +74,8 @@ class Excel:
                   reorder=True):
         d_in = pd.read_excel(file, sheet_name=None)
         if as_datatables:
-            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.to_dict(
-                orient='series', index=False)}, copy=False) for k, v in d_in.items()}
+            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.items()})
+                    for k, v in d_in.items()}
         if reorder:
             d_out = Excel.__reorder_input(d_in)
         else:
-- 
2.43.0


From 87615f4c57a300e681fdbb500291c71eb2068c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 06/35] fix: EqualSpaceBins.locate() put very large values
 below the first bin

---
 src/pyhipp/stats/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index f2b3bb7..e955f00 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -189,8 +189,8 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        ids = np.floor((x - b) / x_step).astype(np.int64)
-        np.clip(ids, -1, n_bins, out=ids)
+        ids = np.clip(np.floor((x - b) / x_step), -1, n_bins).astype(np.int64)
+        np.clip(ids, -1, n_bins, out=ids)   # for nans
         return ids
         
     def to_simple_repr(self) -> dict:
-- 
2.43.0


From 96c5e2ad971fb14684842cd9cf622fec635ddb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 07/35] fix: Bootstrap.resampled_call() lost the datasets after
 the first resample when given as an iterator

---
 src/pyhipp/stats/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/stats/sampling.py b/src/pyhipp/stats/sampling.py
index dff2bc7..d774540 100644
--- a/src/pyhipp/stats/sampling.py
+++ b/src/pyhipp/stats/sampling.py
@@ -23,6 +23,9 @@ class Bootstrap:
     ) -> DataDict:
 
         rng = Rng(rng)
+        dsets_in = list(dsets_in)
+        if dsets_max_sizes is not None:
+            dsets_max_sizes = list(dsets_max_sizes)
 
         dsets_out: List[Mapping] = []
         for _ in range(n_resample):
-- 
2.43.0


From 86f4f871754062f43c5d4631f85901921fcf1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 08/35] fix: concurrent cache lookups could replace or lose
 entries already handed out

A lookup that found its key missing stored its own result even if another
lookup or put_cache() had stored one in the meantime; HasMultiCache could
also replace the whole sub-cache of a key.
---
 src/pyhipp/core/abc.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 849b008..0b12f47 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -135,8 +135,7 @@ class HasCache:
         if key in c:
             out = c[key]
         else:
-            out = fallback()
-            c[key] = out
+            out = c.setdefault(key, fallback())
 
         return out
 
@@ -149,14 +148,10 @@ class HasMultiCache:
         self.cache: Dict[str, Dict[str, Any]] = {}
 
     def get_cache_or(self, key: str, subkey: str, fallback: Callable) -> Any:
-        if key not in self.cache:
-            self.cache[key] = {}
-
-        c = self.cache[key]
+        c = self.cache.setdefault(key, {})
         if subkey in c:
             out = c[subkey]
         else:
-            out = fallback()
-            c[subkey] = out
+            out = c.setdefault(subkey, fallback())
 
         return out
-- 
2.43.0


From 68a0efeec0dc57613177391ebcde820e60ae2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 09/35] fix: DataTable.row_stacked uses np.vstack (np.row_stack
 was removed in NumPy 2)

---
 src/pyhipp/core/containers/data_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index c1d3ded..8babe3a 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -185,7 +185,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return np.column_stack(list(self.values()))
 
     def row_stacked(self) -> np.ndarray:
-        return np.row_stack(list(self.values()))
+        return np.vstack(list(self.values()))
 
     def concat(self, *other: Mapping[Key, Value]) -> DataTable:
         '''
-- 
2.43.0


From fdadbdbd8f893b641803781e3c8553dd1cc61718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 10/35] fix: DataTable can be copied and pickled (attribute
 lookup recursed before initialization)

---
 src/pyhipp/core/containers/data_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index 8babe3a..159d4f2 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -135,6 +135,9 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     # For attribute access
     def __getattr__(self, key: Key) -> Value:
+        if key == '_data':
+            # not initialized yet, e.g., when being copied or unpickled
+            raise AttributeError(f'Attribute {key} not found')
         try:
             return self[key]
         except KeyError:
-- 
2.43.0


From 8bd7bf00b94abd52564507f3ef16527cb5f2b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 11/35] fix: DataTable with copy=False accepts values which are
 not arrays (NumPy 2 raises on copy=False)

---
 src/pyhipp/core/containers/data_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index 159d4f2..fdf3d7c 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -52,7 +52,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         assert isinstance(data, Mapping)
 
         self._data = OrderedDict({
-            k: np.array(v, copy=copy) for k, v in data.items()
+            k: np.array(v, copy=copy or None) for k, v in data.items()
         })
 
     def __getitem__(self, key: KeyOrKeys) -> ValueOrValues:
@@ -127,7 +127,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     def update(self, other: Mapping[Key, Value], copy=True) -> None:
         self._data.update({
-            k: np.array(v, copy=copy) for k, v in other.items()
+            k: np.array(v, copy=copy or None) for k, v in other.items()
         })
 
     def clear(self) -> None:
@@ -179,7 +179,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return cls(**init_kw)
 
     def to_dict(self, copy=True) -> dict[str, np.ndarray]:
-        return {k: np.array(v, copy=copy) for k, v in self.items()}
+        return {k: np.array(v, copy=copy or None) for k, v in self.items()}
 
     def to_dict_of_list(self) -> dict[str, list]:
         return {k: v.tolist() for k, v in self.items()}
-- 
2.43.0


From 6cd6774bec7402b89f909d4d0529a79d2c3401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 12/35] fix: HasLog.log writes a line at once, so that
 concurrent lines do not get mixed

---
 src/pyhipp/core/abc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 0b12f47..cf8cbb3 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -3,6 +3,7 @@ from typing import Any, Callable, Dict, Tuple, List
 import numpy as np
 import yaml
 import json
+from io import StringIO
 from time import localtime, strftime
 import pprint
 
@@ -101,7 +102,6 @@ class HasLog(HasName):
 
     def log(self, *args, end='\n', sep='', flush=True, named=True,
             timed=False, time_fmt='%Y-%m-%d %H:%M:%S') -> None:
-        kw = dict(end=end, sep=sep, flush=flush)
         if self.verbose:
             prefix = ''
             if named:
@@ -110,9 +110,11 @@ class HasLog(HasName):
                 t = strftime(time_fmt, localtime())
                 prefix += f'[{t}]'
             if len(prefix) > 0:
-                print(prefix, ' ', *args, **kw)
-            else:
-                print(*args, **kw)
+                args = (prefix, ' ', *args)
+            # a single write, so that concurrent lines do not get mixed
+            line = StringIO()
+            print(*args, end=end, sep=sep, file=line)
+            print(line.getvalue(), end='', flush=flush)
         return self
 
 
-- 
2.43.0


From da67d768e67585ba79c720b4b41a98834735ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 13/35] fix: DensityField initializes its base class (logging
 from it raised AttributeError)

---
 src/pyhipp/field/cubic_box/mass_assignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/field/cubic_box/mass_assignment.py b/src/pyhipp/field/cubic_box/mass_assignment.py
index 58382c9..28bb63d 100644
--- a/src/pyhipp/field/cubic_box/mass_assignment.py
+++ b/src/pyhipp/field/cubic_box/mass_assignment.py
@@ -121,6 +121,8 @@ class DensityField(abc.HasLog):
 
     def __init__(self, l_box: float, n_grids: int) -> None:
 
+        super().__init__()
+
         mesh = _Mesh(n_grids, l_box)
         data = np.zeros((n_grids, n_grids, n_grids), dtype=np.float64)
         field = _Field(data, mesh)
-- 
2.43.0


From efabf8792a507de1d914f80021da2d2c0ab5bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 14/35] fix: ParamList forgets the name of a replaced parameter

---
 src/pyhipp/astro/cosmology/param.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/astro/cosmology/param.py b/src/pyhipp/astro/cosmology/param.py
index eea7d33..f8e1b59 100644
--- a/src/pyhipp/astro/cosmology/param.py
+++ b/src/pyhipp/astro/cosmology/param.py
@@ -28,8 +28,11 @@ class ParamList(HasName, HasSimpleRepr):
         return self._params[key]
     
     def __setitem__(self, idx: int, param: Param) -> None:
-        self._params[idx] = param
-        self._name2idx[param.name] = idx
+        _params = list(self._params)
+        _params[idx] = param
+        _name2idx = {p.name: i for i, p in enumerate(_params)}
+        
+        self._params, self._name2idx = _params, _name2idx
     
     def __len__(self) -> int:
         return len(self._params)
-- 
2.43.0


From b799138af579086d82f19447f971c2bbc2a01ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 15/35] fix: HasValue with copy=False accepts values which are
 not arrays (NumPy 2 raises on copy=False)

---
 src/pyhipp/core/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index cf8cbb3..242c734 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -122,7 +122,7 @@ class HasValue:
     def __init__(self, value: np.ndarray, copy=True, **kw) -> None:
         super().__init__(**kw)
 
-        self.value = np.array(value, copy=copy)
+        self.value = np.array(value, copy=copy or None)
 
     def set_value(self, value: np.ndarray) -> None:
         self.value[...] = value
-- 
2.43.0


From fe84f4edc53a3847d08a9d80ff29e3cd12a588eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 16/35] fix: RuntimeConfig owns its configuration (changing it,
 or a dictionary given to it, changed the defaults or other configurations)

---
 src/pyhipp/plot/runtime_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/runtime_config.py b/src/pyhipp/plot/runtime_config.py
index 72d9ba8..7921362 100644
--- a/src/pyhipp/plot/runtime_config.py
+++ b/src/pyhipp/plot/runtime_config.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import matplotlib as mpl
+from copy import deepcopy
 from typing import Dict, Any, Self
 
 class RuntimeConfig:
@@ -89,7 +90,7 @@ class RuntimeConfig:
     }
     
     def __init__(self, config_dict: ConfigDict = None) -> None:
-        self.config_dict = RuntimeConfig.default_config_dict.copy()
+        self.config_dict = deepcopy(RuntimeConfig.default_config_dict)
         self.update(config_dict)
         
     def update(self, config_dict: ConfigDict = None) -> Self:
@@ -105,7 +106,7 @@ class RuntimeConfig:
         matplotlib backend.
         '''
         if config_dict is not None:
-            self.config_dict.update(config_dict)
+            self.config_dict.update(deepcopy(config_dict))
     
         return self
     
-- 
2.43.0


From 23e2061034a2721d221e7f7d170f89e6c209728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 17/35] fix: identical secondary axis passes two functions

---
 src/pyhipp/astro/plot/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/plot/shortcuts.py b/src/pyhipp/astro/plot/shortcuts.py
index 06a82fb..caff752 100644
--- a/src/pyhipp/astro/plot/shortcuts.py
+++ b/src/pyhipp/astro/plot/shortcuts.py
@@ -53,7 +53,7 @@ class Axes:
     def add_secondary_identical_axis(
             self, location='top', ticks=None, label=None, hide_first_ticks=True,
             **mpl_axes_kw):
-        def fn(x): return x, lambda x: x
+        fn = (lambda x: x), (lambda x: x)
         return self.add_secondary_axis(
             *fn, location=location, ticks=ticks, label=label,
             hide_first_ticks=hide_first_ticks, **mpl_axes_kw)
-- 
2.43.0


From fa2ffee6f44ee757f832e12dd0e0fa09aae5073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 18/35] fix: legend location map mangled 'center left' and
 'center right'

---
 src/pyhipp/plot/axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 2fa6016..a4ec8fe 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -405,7 +405,7 @@ class Axes(MplObj[mpl_axes.Axes]):
             'r': 'right',
             'lr': 'lower right', 'll': 'lower left', 'cl': 'center left',
             'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center',
-            'center left': 'cl', 'center right': 'cr', 'c': 'center',
+            'cr': 'center right', 'c': 'center',
         }
         loc = loc_map.get(loc, loc)
 
-- 
2.43.0


From 605b8fdeeaa108f13dd11932ac407490b37a6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 19/35] fix: Standardize keeps sd_lb, which its representation
 shows

---
 src/pyhipp/stats/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/preprocessing.py b/src/pyhipp/stats/preprocessing.py
index 143e059..05d4215 100644
--- a/src/pyhipp/stats/preprocessing.py
+++ b/src/pyhipp/stats/preprocessing.py
@@ -39,6 +39,7 @@ class Standardize(Preprocess):
         
         self.mean = mean
         self.sd = sd
+        self.sd_lb = sd_lb
         
     def _impl_forward(self, x: np.ndarray) -> np.ndarray:
         return (x - self.mean) / self.sd
-- 
2.43.0


From f50d6e5837d950c8885e58757f51e8a38595c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 20/35] fix: local kernel regression consumed a generator of
 reductions twice

---
 src/pyhipp/stats/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index e7a553d..da508b1 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -114,8 +114,9 @@ class _LocalKernelRegression(_Regression):
         std is the standard deviation of x, computed along every axes and then 
         averaged.
         '''
-        r_names = tuple(n for n, _ in m_reduction.predefined.iter(reduce))
-        r_calls = tuple(c for _, c in m_reduction.predefined.iter(reduce))
+        reduce = tuple(m_reduction.predefined.iter(reduce))
+        r_names = tuple(n for n, _ in reduce)
+        r_calls = tuple(c for _, c in reduce)
         n_rs = len(r_names)
         if kernel is not None:
             kernel = m_kernel.predefined.create(kernel)[1]
-- 
2.43.0


From 8e3a9def595b8151d0df504e09cd7b4e0318b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 21/35] fix: fields with an odd number of grids per side are
 transformed back to their own shape

---
 src/pyhipp/field/cubic_box/gravity.py   | 3 ++-
 src/pyhipp/field/cubic_box/smoothing.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/gravity.py b/src/pyhipp/field/cubic_box/gravity.py
index b1ee677..ce8d9b5 100644
--- a/src/pyhipp/field/cubic_box/gravity.py
+++ b/src/pyhipp/field/cubic_box/gravity.py
@@ -91,7 +91,8 @@ class TidalField:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         sm = _Gaussian(self._r_sm, mesh)
         S = _LinearShapeFn(mesh) if self._correct_shape == 'cic' \
             else _NoneShapeFn()
diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index ca5a7be..cb0b897 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -90,7 +90,8 @@ class FFTSmoothing:
 
     def run(self, field: Field):
         data, mesh = field.data, field.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=data.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
@@ -157,7 +158,8 @@ class FourierSpaceSmoothing:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
-- 
2.43.0


From ef0403628d84d8dd4240529babe9f887a4802aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 22/35] fix: Count of a two-dimensional sample gives one count
 per row

---
 src/pyhipp/stats/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5501a2e..34096cf 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -107,7 +107,8 @@ class Count(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        out = x.shape[-1] if mask is None else mask.sum(-1)
+        out = np.full(x.shape[:-1], x.shape[-1]) if mask is None \
+            else mask.sum(-1)
         return np.asarray(out)
 
 
-- 
2.43.0


From 021e371d38aaeb7b8d7c2e949a53e844521311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 23/35] fix: StdDev of an empty selection gives the fill value

---
 src/pyhipp/stats/reduction.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 34096cf..35e4ff1 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -169,7 +169,14 @@ class StdDev(Reduce):
         if x.ndim == 2:
             x_mean = x_mean[:, None]
         dx = x - x_mean
-        return np.sqrt(mean(dx * dx, weight, mask))
+        var = mean(dx * dx, weight, mask)
+
+        sel_empty = Count()(x, mask=mask) < 1
+        var[sel_empty] = 0.
+        out = np.asarray(np.sqrt(var))
+        out[sel_empty] = self.empty_fill
+
+        return out
 
 
 class Quantile(Reduce):
-- 
2.43.0


From d5c2f7908d44909b99a9e9a62420fddc43ceab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 24/35] fix: len() of a point group counts its operations

---
 src/pyhipp/group_theory/point_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/group_theory/point_group.py b/src/pyhipp/group_theory/point_group.py
index 919da09..ad382a6 100644
--- a/src/pyhipp/group_theory/point_group.py
+++ b/src/pyhipp/group_theory/point_group.py
@@ -90,7 +90,7 @@ class Group(abc.HasName, abc.HasSimpleRepr):
         return iter(self.ops)
     
     def __len__(self) -> int:
-        return len(self.opts)
+        return len(self.ops)
     
     def __getitem__(self, idx) -> Op:
         return self.ops[idx]
-- 
2.43.0


From 2e753c623ba2779a53309f4e871670d2495c7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 25/35] fix: Array(copy=False) of a list, flat argsort and
 IndexArray work again

---
 src/pyhipp/core/arrays/array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 2ab0730..7e61d46 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -22,7 +22,7 @@ class Array(HasDictRepr):
         if isinstance(data, Array):
             data = data._impl
             
-        self._impl = np.array(data, dtype=dtype, copy=copy)
+        self._impl = np.array(data, dtype=dtype, copy=copy or None)
         
     @classmethod
     def zeros(cls, shape: Shape, dtype: DType = None, **kw) -> Array:
@@ -49,7 +49,7 @@ class Array(HasDictRepr):
             -> Union[FlatIndexArray, IntArray]:
         out = self._impl.argsort(axis=axis, kind=kind)
         if axis is None:
-            out = FlatIndexArray(out, self.size, copy=False)
+            out = FlatIndexArray(self.size, out, copy=False)
         else:
             out = IntArray(out, copy=False)
         return out
@@ -126,5 +126,5 @@ class IndexArray(IntArray):
         self.shape_indexed = Shape(shape_indexed)
         
         assert self.n_dims == 2
-        assert self.shape[-1] == len(self.shape_indexed)
+        assert self.shape._impl[-1] == len(self.shape_indexed)
 
-- 
2.43.0


From 9036a948862d576eef4713198c07fc2951a12485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 26/35] fix: Polar.rt_to_cart accepts integer positions

---
 src/pyhipp/core/dataproc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 3e4090b..9cabc63 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -30,7 +30,7 @@ class Polar:
         @x: (n,3) array-like, spatial position.
         @v: (n,3) array-like, vector to be transformed.
         '''
-        vnew_z = np.array(x)
+        vnew_z = np.array(x, dtype=float)
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
         vnew_y = np.cross(vnew_z, vnew_x)
-- 
2.43.0


From 30673a9efa88209543d58ab8c3765d58e9a95047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 27/35] fix: as_array(copy=False) converts non-arrays

---
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 6909bf5..5f9c15a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -44,7 +44,7 @@ class Array:
     def __as_array_one(x, copy):
         if x is None:
             return None
-        return np.array(x, copy=copy)
+        return np.array(x, copy=copy or None)
 
     
     @staticmethod
-- 
2.43.0


From 5f3db39bfc50f9b538a4b8ebda10aa6680b9a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 28/35] fix: Mask.on_array with a scalar index and no copy

---
 src/pyhipp/core/dataproc/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/mask.py b/src/pyhipp/core/dataproc/mask.py
index f5bc15a..3e747d7 100644
--- a/src/pyhipp/core/dataproc/mask.py
+++ b/src/pyhipp/core/dataproc/mask.py
@@ -47,7 +47,7 @@ class Mask:
     
     @staticmethod
     def on_array(mask: Any, a: np.ndarray, copy: bool = False):
-        return np.array(a[mask], copy=copy)
+        return np.array(a[mask], copy=copy or None)
         
     @staticmethod
     def on_arrays(mask: Any, 
-- 
2.43.0


From 786cb9cb16bcf7b39d87eb2b81d214925403c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 29/35] fix: edges_to_centers and edges_to_widths accept lists

---
 src/pyhipp/stats/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index e955f00..34be061 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -71,13 +71,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
-- 
2.43.0


From 8a1c9bda3b7eba7c3ee01e5d7d513d2310bee57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 30/35] fix: the sign of a negative angle covers its minutes
 and seconds

---
 src/pyhipp/astro/coords/cvt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyhipp/astro/coords/cvt.py b/src/pyhipp/astro/coords/cvt.py
index 5d6b833..c3d13a9 100644
--- a/src/pyhipp/astro/coords/cvt.py
+++ b/src/pyhipp/astro/coords/cvt.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import math
 import typing
 from typing import Self
 
@@ -6,6 +7,8 @@ def dms_to_deg(dms: str| tuple[float,float,float]) -> float:
     if isinstance(dms, str):
         dms = tuple(float(v) for v in dms.split(':'))
     d, m, s = dms
+    if math.copysign(1., d) < 0.:       # the sign is that of the whole angle
+        m, s = -abs(m), -abs(s)
     deg = d + m / 60. + s / 3600.
     return deg
 
@@ -13,5 +16,7 @@ def hms_to_deg(hms: str| tuple[float,float,float]) -> float:
     if isinstance(hms, str):
         hms = tuple(float(v) for v in hms.split(':'))
     h, m, s = hms
+    if math.copysign(1., h) < 0.:       # the sign is that of the whole angle
+        m, s = -abs(m), -abs(s)
     deg = (h + m / 60. + s / 3600.)*15.
     return deg
\ No newline at end of file
-- 
2.43.0


From 1561f73d3df0d83297459be83e5dd39e88516598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 31/35] fix: Linear rejects nodes that are not in ascending
 order

---
 src/pyhipp/numerical/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/numerical/interpolate.py b/src/pyhipp/numerical/interpolate.py
index 1ce3518..27086d1 100644
--- a/src/pyhipp/numerical/interpolate.py
+++ b/src/pyhipp/numerical/interpolate.py
@@ -139,7 +139,7 @@ class Linear:
             n = len(x_nodes)
             assert x_nodes.shape == (n,)
             assert y_nodes.shape == (n,)
-            assert (x_nodes[1:] - x_nodes[:-1]).all()
+            assert (x_nodes[1:] > x_nodes[:-1]).all()
         assert len(x_nodes) >= 2
 
         self._x_nodes = x_nodes
-- 
2.43.0


From 9b6a9e606dd90414fac2b65a2c5d7ce889e83137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 32/35] fix: Tophat.volume() without a limit is that of its own
 radius (raised TypeError)

---
 src/pyhipp/stats/kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/kernel.py b/src/pyhipp/stats/kernel.py
index b5fce49..ce2be67 100644
--- a/src/pyhipp/stats/kernel.py
+++ b/src/pyhipp/stats/kernel.py
@@ -51,7 +51,9 @@ class Tophat(Kernal):
         return out
     
     def volume(self, n_dims: int, max_radius: float) -> float:
-        if max_radius is not None:
+        if max_radius is None:
+            max_radius = self.radius
+        else:
             max_radius = min(max_radius, self.radius)
         return self._ball_volume(n_dims, max_radius)
     
-- 
2.43.0


From 30f51f77b693f9a8160fe45545b6961ca37cdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 33/35] fix: DatasetManager.what() always raised TypeError

---
 src/pyhipp/io/h5/named_objs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c4e2ca1..b24acc5 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -236,9 +236,10 @@ class DatasetManager(Obj):
         return f'DatasetManager(keys={self.keys()})'
 
     def what(self) -> str:
-        if len(self) == 0:
+        keys = self.keys()
+        if len(keys) == 0:
             return ''
-        return '[' + ', '.join(self.__keys()) + ']'
+        return '[' + ', '.join(keys) + ']'
 
     def __keys(self) -> Iterable[str]:
         return (k for k, _ in self.__items())
-- 
2.43.0


From e0ba229393241576e260a5acac78c24f63167ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 34/35] fix: KNearestNeighbor2D kept the caller's weight array

---
 src/pyhipp/plot/two_dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index 30fc479..fbe4d7e 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -109,7 +109,7 @@ class KNearestNeighbor2D(DensityEstimator2D):
         
         self.k_used = k
         self.knn = knn
-        self.weight = np.asarray(weight) if weight is not None else None 
+        self.weight = np.array(weight) if weight is not None else None 
         
         return self
 
-- 
2.43.0


From 89892473a4b2c70f7148c4d3fa7f39d6fa5fd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 35/35] fix: Histogram2D.on() binned points differently from
 fit()

---
 src/pyhipp/plot/two_dim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index fbe4d7e..458abe5 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -83,8 +83,9 @@ class Histogram2D(DensityEstimator2D):
     def on(self, x: np.ndarray, y: np.ndarray) -> np.ndarray:
         x_e, y_e = self.x_e, self.y_e
         n_x, n_y = len(x_e) - 1, len(y_e) - 1
-        x_id = np.searchsorted(self.x_e, x) - 1
-        y_id = np.searchsorted(self.y_e, y) - 1
+        # bins are half-open, except that the last one is closed (as in fit())
+        x_id = np.searchsorted(x_e, x, side='right') - (np.equal(x, x_e[-1]) + 1)
+        y_id = np.searchsorted(y_e, y, side='right') - (np.equal(y, y_e[-1]) + 1)
         _x_id, _y_id = np.clip(x_id, 0, n_x-1), np.clip(y_id, 0, n_y-1)
         z = self.z[_x_id, _y_id]
         if self.out_of_range == 'zero':
-- 
2.43.0

