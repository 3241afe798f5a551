From 840ca97928cfec5b5286a929880ce011ac18a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 01/33] fix: honour the seed in numba branches of random
 portfolio dispatchers

---
 vectorbt/portfolio/dispatch.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vectorbt/portfolio/dispatch.py b/vectorbt/portfolio/dispatch.py
index eefe3be..5bb6c9e 100644
--- a/vectorbt/portfolio/dispatch.py
+++ b/vectorbt/portfolio/dispatch.py
@@ -20,6 +20,7 @@ from vectorbt._engine import (
 )
 from vectorbt.portfolio.enums import order_dt, trade_dt
 from vectorbt.records.dispatch import record_array_compatible_with_rust
+from vectorbt.utils.random_ import set_seed_nb
 
 
 def order_record_array_compatible_with_rust(records: tp.Any) -> RustSupport:
@@ -437,6 +438,8 @@ def shuffle_call_seq(
     if eng == "numba":
         from vectorbt.portfolio.nb import shuffle_call_seq_nb
 
+        if seed is not None:
+            set_seed_nb(seed)
         return shuffle_call_seq_nb(call_seq, group_lens)
     eng = resolve_engine(
         engine,
@@ -452,6 +455,8 @@ def shuffle_call_seq(
         return shuffle_call_seq_rs(call_seq, group_lens, seed)
     from vectorbt.portfolio.nb import shuffle_call_seq_nb
 
+    if seed is not None:
+        set_seed_nb(seed)
     return shuffle_call_seq_nb(call_seq, group_lens)
 
 
@@ -572,6 +577,8 @@ def simulate_from_orders(
         if eng == "numba":
             from vectorbt.portfolio.nb import simulate_from_orders_nb
 
+            if seed is not None:
+                set_seed_nb(seed)
             return simulate_from_orders_nb(
                 target_shape,
                 group_lens,
@@ -795,6 +802,8 @@ def simulate_from_signals(
         if eng == "numba":
             from vectorbt.portfolio.nb import simulate_from_signals_nb
 
+            if seed is not None:
+                set_seed_nb(seed)
             return simulate_from_signals_nb(
                 target_shape,
                 group_lens,
-- 
2.43.0


From 8ef192e981411ec3c4ba153eabafcaa46ffdca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 02/33] fix: keep the grouping of three or more groups when
 selecting groups

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..6b9a267 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens)[:-1]] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From fbc896d2f53b5c79e0d4a40cf8b83b94cfb8a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 03/33] fix: compare numbers of groups, not of columns, in
 ColumnGrouper.is_group_count_changed

---
 vectorbt/base/column_grouper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/column_grouper.py b/vectorbt/base/column_grouper.py
index 23e0a28..53ab04d 100644
--- a/vectorbt/base/column_grouper.py
+++ b/vectorbt/base/column_grouper.py
@@ -221,7 +221,7 @@ class ColumnGrouper(Configured):
         if group_by is None or (group_by is False and self.group_by is None):
             return False
         if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
-            return len(group_by) != len(self.group_by)
+            return len(group_by.unique()) != len(self.group_by.unique())
         return True
 
     def check_group_by(
-- 
2.43.0


From e7280393ec4beb3021a747e96772e0a31f741da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 04/33] fix: distinguish arguments of different types in cached
 methods

---
 vectorbt/utils/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38bf532..01870de 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -359,7 +359,7 @@ def custom_method(*args, **flags) -> tp.Union[tp.Callable, custom_methodT]:
     ```
     and
     ```pycon
-    >>> @cached_method(maxsize=128, typed=False, a=0, b=0)  # flags
+    >>> @cached_method(maxsize=128, typed=True, a=0, b=0)  # flags
     ... def user_function(): pass
     ```
     """
@@ -392,7 +392,7 @@ class cached_methodT(custom_methodT):
     def __call__(self, *args, **kwargs) -> tp.Any: ...
 
 
-def cached_method(*args, maxsize: int = 128, typed: bool = False, **flags) -> tp.Union[tp.Callable, cached_methodT]:
+def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.Union[tp.Callable, cached_methodT]:
     """Extends `custom_method` with caching.
 
     Internally uses `functools.lru_cache`.
-- 
2.43.0


From fbcd48476292814e7f6344d8db538370edbbb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 05/33] fix: do not fill missing values in place in the array
 being wrapped

---
 vectorbt/base/array_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 6b9a267..bb99230 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -581,6 +581,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             arr = np.asarray(arr)
             checks.assert_ndim(arr, (1, 2))
             if fillna is not None:
+                arr = arr.copy()
                 arr[pd.isnull(arr)] = fillna
             arr = reshape_fns.soft_to_ndim(arr, self.ndim)
             checks.assert_shape_equal(arr, index, axis=(0, 0))
@@ -653,6 +654,7 @@ class ArrayWrapper(Configured, PandasIndexer):
 
             arr = np.asarray(arr)
             if fillna is not None:
+                arr = arr.copy()
                 arr[pd.isnull(arr)] = fillna
             if arr.ndim == 0:
                 # Scalar per Series/DataFrame
-- 
2.43.0


From e12135f8aa33a3b87f89a64708b48732658e24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 06/33] fix: broadcast range ends as well as range starts in
 get_ranges_arr

---
 vectorbt/utils/array_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/array_.py b/vectorbt/utils/array_.py
index 354034b..551b6e4 100644
--- a/vectorbt/utils/array_.py
+++ b/vectorbt/utils/array_.py
@@ -50,7 +50,7 @@ def get_ranges_arr(starts: tp.ArrayLike, ends: tp.ArrayLike) -> tp.Array1d:
     ends_arr = np.asarray(ends)
     if ends_arr.ndim == 0:
         ends_arr = np.array([ends_arr])
-    starts_arr, end = np.broadcast_arrays(starts_arr, ends_arr)
+    starts_arr, ends_arr = np.broadcast_arrays(starts_arr, ends_arr)
     counts = ends_arr - starts_arr
     counts_csum = counts.cumsum()
     id_arr = np.ones(counts_csum[-1], dtype=int)
-- 
2.43.0


From c65a616b310ac5dc597bf100e1f64f63db543797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 07/33] fix: apply same_keys to nested dicts too when updating
 dicts

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..a8cc486 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
-- 
2.43.0


From 09f374e6af0e4bc95aa8ba0455996a7114fec435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 08/33] fix: do not update dicts nested in a read-only config

---
 vectorbt/utils/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index a8cc486..fb1f32c 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,6 +157,8 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
+            if isinstance(x, Config) and not isinstance(x[k], Config) and not force and x.readonly_:
+                raise TypeError("Config is read-only")
             update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
-- 
2.43.0


From fa2487373c82ee9fb5e097c0d5a3f000aae41c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 09/33] fix: guard in-place union and setdefault of read-only
 and frozen configs

---
 vectorbt/utils/config.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index fb1f32c..1ab49e0 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -564,6 +564,16 @@ class Config(PickleableDict, Documented):
             nested = self.nested_
         update_dict(self, other, nested=nested, force=force)
 
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        self.update(other, nested=False)
+        return self
+
+    def setdefault(self, k: str, v: tp.Any = None, force: bool = False) -> tp.Any:
+        """Return the value of the key `k`, after setting it to `v` if the key is not in the dict."""
+        if k not in self:
+            self.__setitem__(k, v, force=force)
+        return self[k]
+
     def __copy__(self: ConfigT) -> ConfigT:
         """Shallow operation, primarily used by `copy.copy`.
 
-- 
2.43.0


From 36aebbe64242bf8d4a07847469485ba050560c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 10/33] fix: keep an empty first dict empty when merging with
 same_keys

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 1ab49e0..d7fdb5c 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -192,7 +192,7 @@ def merge_dicts(
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From 916dc7210818c2a43c7cf77a76de4e9f284872eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 11/33] fix: use the requested grouping when filtering top and
 bottom N elements

---
 vectorbt/records/mapped_array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..06a48b7 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -653,14 +653,14 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
         return dispatch.bottom_n_mapped_mask(self.values, col_map, n, engine=engine)
 
     @cached_method
-    def top_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
+    def top_n(self: MappedArrayT, n: int, group_by: tp.GroupByLike = None, **kwargs) -> MappedArrayT:
         """Filter top N elements from each column/group."""
-        return self.apply_mask(self.top_n_mask(n), **kwargs)
+        return self.apply_mask(self.top_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)
 
     @cached_method
-    def bottom_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
+    def bottom_n(self: MappedArrayT, n: int, group_by: tp.GroupByLike = None, **kwargs) -> MappedArrayT:
         """Filter bottom N elements from each column/group."""
-        return self.apply_mask(self.bottom_n_mask(n), **kwargs)
+        return self.apply_mask(self.bottom_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)
 
     @cached_method
     def is_expandable(
-- 
2.43.0


From 2fb345fca741d94f07ffaae438b4ac8812475c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 12/33] fix: do not set the frequency of the index passed to
 Data.from_data in place

---
 vectorbt/data/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..281c131 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -528,6 +528,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                         v = v.tz_localize(to_timezone(tz_localize))
                 if tz_convert is not None:
                     v = v.tz_convert(to_timezone(tz_convert))
+                v = v.set_axis(v.index.copy(deep=True))
                 v.index.freq = v.index.inferred_freq
             data[k] = v
 
-- 
2.43.0


From 7f7e27caad5b600db50a207afd0da2180092ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 13/33] fix: do not fill a buy order whose acquirable size is
 rounded down to zero

---
 rust/src/portfolio.rs    | 8 ++++++++
 vectorbt/portfolio/nb.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index f65e8bc..97b9952 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -905,6 +905,14 @@ fn buy(
         ));
     }
 
+    // The acquirable size may fall below the size granularity
+    if is_close(final_size, 0.0) {
+        return Ok((
+            exec_state,
+            order_not_filled(ORDER_STATUS_IGNORED, ORDER_STATUS_INFO_SIZE_ZERO),
+        ));
+    }
+
     // Update state
     let new_cash = add(exec_state.cash, -final_req_cash);
     let new_position = add(exec_state.position, final_size);
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..9238363 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -187,6 +187,10 @@ def buy_nb(
     if np.isfinite(size) and is_less_nb(final_size, size) and not allow_partial:
         return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.PartialFill)
 
+    # Check against size of zero (the acquirable size may fall below the size granularity)
+    if is_close_nb(final_size, 0):
+        return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
+
     # Update current cash balance and position
     new_cash = add_nb(exec_state.cash, -final_req_cash)
     new_position = add_nb(exec_state.position, final_size)
-- 
2.43.0


From 3fc6c13a543c574dc9e71a8352efc4b311bb9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/33] fix: pass ddof to the Sharpe ratio inside
 deflated_sharpe_ratio

---
 vectorbt/returns/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..5583ca2 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -591,7 +591,7 @@ class ReturnsAccessor(GenericAccessor):
             risk_free = self.defaults["risk_free"]
         if ddof is None:
             ddof = self.defaults["ddof"]
-        sharpe_ratio = to_1d_array(self.sharpe_ratio(risk_free=risk_free))
+        sharpe_ratio = to_1d_array(self.sharpe_ratio(risk_free=risk_free, ddof=ddof))
         if var_sharpe is None:
             var_sharpe = np.var(sharpe_ratio, ddof=ddof)
         if nb_trials is None:
-- 
2.43.0


From 99c63e3de3516392ce25b877662127ffc5d9cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 15/33] fix: MappedArray.describe(group_by=False) of a grouped
 array uses the requested grouping

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 06a48b7..945a5c1 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -979,7 +979,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From 176f67aa908ca034f408e25338e23bcf95e985ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 16/33] fix: is_deep_equal applies check_exact to items of
 lists, tuples and dicts

---
 vectorbt/utils/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..d0fa0d3 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -324,10 +324,10 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
         else:
             if isinstance(arg1, (tuple, list)):
                 for i in range(len(arg1)):
-                    safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
+                    safe_assert(is_deep_equal(arg1[i], arg2[i], check_exact=check_exact, **kwargs))
             elif isinstance(arg1, dict):
                 for k in arg1.keys():
-                    safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
+                    safe_assert(is_deep_equal(arg1[k], arg2[k], check_exact=check_exact, **kwargs))
             else:
                 try:
                     if arg1 == arg2:
-- 
2.43.0


From 115319e45ed25b4805767cf67c6d35cd2307095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 17/33] fix: is_deep_equal compares lengths of lists and keys
 of dicts

---
 vectorbt/utils/checks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index d0fa0d3..82a4b16 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -323,9 +323,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
                     safe_assert(is_deep_equal(arg1[i], arg2[i], check_exact=check_exact, **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(arg1.keys() == arg2.keys())
                 for k in arg1.keys():
                     safe_assert(is_deep_equal(arg1[k], arg2[k], check_exact=check_exact, **kwargs))
             else:
-- 
2.43.0


From 45aeba53d4c43d41ecae4c569899aa005d8bd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 18/33] fix: rolling_mean_1d_nb with minp=0 gives NaN instead
 of dividing by zero on an all-NaN window

---
 vectorbt/generic/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..b638878 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -741,7 +741,7 @@ def rolling_mean_1d_nb(a: tp.Array1d, window: int, minp: tp.Optional[int] = None
         else:
             window_len = window - (nancnt - nancnt_arr[i - window])
             window_cumsum = cumsum - cumsum_arr[i - window]
-        if window_len < minp:
+        if window_len < minp or window_len == 0:
             out[i] = np.nan
         else:
             out[i] = window_cumsum / window_len
-- 
2.43.0


From 3c77387986a67867d667b105f54f2a3d32a77fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 19/33] fix: rename_levels must not rename the index it was
 given in place

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 7dad4c0..1fc9525 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -184,7 +184,7 @@ def rename_levels(index: tp.Index, name_dict: tp.Dict[str, tp.Any], strict: bool
                 raise KeyError(f"Level '{k}' not found")
         else:
             if index.name == k:
-                index.name = v
+                index = index.rename(v)
             elif strict:
                 raise KeyError(f"Level '{k}' not found")
     return index
-- 
2.43.0


From 70b9b4b502d3e042a1c7ab7e27c67323161f2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 20/33] fix: drop_duplicate_levels must honor keep regardless
 of its case

---
 vectorbt/base/index_fns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1fc9525..d55867b 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -231,7 +231,8 @@ def drop_duplicate_levels(index: tp.Index, keep: tp.Optional[str] = None) -> tp.
         keep = broadcasting_cfg["keep"]
     if not isinstance(index, pd.MultiIndex):
         return index
-    checks.assert_in(keep.lower(), ["first", "last"])
+    keep = keep.lower()
+    checks.assert_in(keep, ["first", "last"])
 
     levels = []
     levels_to_drop = []
-- 
2.43.0


From 763a2bd6ed1318958fc70752cc2fb7cc5262d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 21/33] fix: split_ranges_into_sets must reject negative set
 lengths

---
 vectorbt/generic/splitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/splitters.py b/vectorbt/generic/splitters.py
index c0217f4..72498ce 100644
--- a/vectorbt/generic/splitters.py
+++ b/vectorbt/generic/splitters.py
@@ -73,7 +73,7 @@ def split_ranges_into_sets(
             for j, set_len in enumerate(_set_lens):
                 if 0 < set_len < 1:
                     set_len = math.floor(set_len * range_len)
-                if set_len == 0:
+                if set_len <= 0:
                     raise ValueError(f"Set {j} in the range {i} is empty")
                 new_set_lens.append(set_len)
             if sum(new_set_lens) < range_len:
-- 
2.43.0


From 9063b1dd86055ce1e7e5037c37a596cce5d53a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 22/33] fix: Data.update must not overwrite existing rows of a
 symbol with rows added by alignment

---
 vectorbt/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 281c131..57d7938 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -647,6 +647,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             new_data[k] = new_obj
 
         # Align index and columns
+        fetched_index = {k: v.index for k, v in new_data.items()}
         new_data = self.align_index(new_data, missing=self.missing_index)
         new_data = self.align_columns(new_data, missing=self.missing_columns)
 
@@ -657,6 +658,8 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                     v = v[self.data[k].name]
             else:
                 v = v[self.data[k].columns]
+            # Rows added by alignment must not replace existing rows
+            v = v[v.index.isin(fetched_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
             v = v[~v.index.duplicated(keep="last")]
             if isinstance(v.index, pd.DatetimeIndex):
-- 
2.43.0


From 14cd5892898ac5638c14127d1cf41ce6d09b20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 23/33] fix: align_index_to must raise when a level combination
 is missing instead of indexing with uninitialized memory

---
 vectorbt/base/index_fns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index d55867b..461a851 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -316,6 +316,8 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
     unique_indices = np.unique(stacked, axis=0, return_inverse=True)[1]
     unique1 = unique_indices[: len(index1)]
     unique2 = unique_indices[len(index1) :]
+    if not np.isin(unique2, unique1).all():
+        raise ValueError("Second index contains level combinations not in first index")
     return pd.IndexSlice[_align_index_to_nb(unique1, unique2)]
 
 
-- 
2.43.0


From 4c6158ec9eb569f1fdffc5b5dcf68b5476d30565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 24/33] fix: fill_reduced wraps one value per column instead of
 one per row

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index bb99230..b6e6d17 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -718,7 +718,7 @@ class ArrayWrapper(Configured, PandasIndexer):
     def fill_reduced(self, fill_value: tp.Scalar, group_by: tp.GroupByLike = None, **kwargs) -> tp.SeriesFrame:
         """Fill a reduced Series/DataFrame."""
         _self = self.resolve(group_by=group_by)
-        return _self.wrap(np.full(_self.shape_2d[1], fill_value), **kwargs)
+        return _self.wrap_reduced(np.full(_self.shape_2d[1], fill_value), **kwargs)
 
 
 WrappingT = tp.TypeVar("WrappingT", bound="Wrapping")
-- 
2.43.0


From e847ff13f015f7c0717b08380e91b4429bfafedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 25/33] fix: describe with group_by=False on a grouped object
 describes each column instead of failing

---
 vectorbt/generic/accessors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 23da0db..d28e340 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -1214,6 +1214,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             dispatch.describe_reduce,
             percentiles,
             ddof,
+            group_by=False,
             returns_array=True,
             engine=engine,
             wrap_kwargs=wrap_kwargs,
-- 
2.43.0


From 7d624420a9dbbfbf17391b31b3483449e822930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 26/33] fix: run_pipeline given some of several in-place
 outputs lost the others

---
 vectorbt/indicators/factory.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 34b4d94..bb837bb 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1629,7 +1629,8 @@ def run_pipeline(
         input_list = list(map(np.asarray, bc_input_list))
     if len(in_output_idxs) > 0:
         # Separate inputs and in-place outputs
-        in_output_list = input_list[-len(in_output_idxs) :]
+        for i, bc_in_output in zip(in_output_idxs, input_list[-len(in_output_idxs) :]):
+            in_output_list[i] = bc_in_output
         input_list = input_list[: -len(in_output_idxs)]
 
     # Reshape input shape
@@ -1726,17 +1727,15 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
-    j = 0
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[j], requirements="W")
+            in_output_wide = np.require(in_output_list[i], requirements="W")
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
-            j += 1
         else:
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
-- 
2.43.0


From 15467b0483d1c86454273f9878d74d696397e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 27/33] fix: selecting columns of an indicator without
 parameters left its inputs unselected

---
 vectorbt/indicators/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index bb837bb..6ded5c4 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -2161,7 +2161,11 @@ class IndicatorBase(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Me
             input_mapper = input_mapper[col_idxs_arr]
         input_list = []
         for input_name in self.input_names:
-            input_list.append(getattr(self, f"_{input_name}")[idx_idxs_arr])
+            new_input = getattr(self, f"_{input_name}")[idx_idxs_arr]
+            if input_mapper is None:
+                # Without parameters, input columns are output columns
+                new_input = reshape_fns.to_2d_array(new_input)[:, col_idxs_arr]
+            input_list.append(new_input)
         in_output_list = []
         for in_output_name in self.in_output_names:
             in_output_list.append(getattr(self, f"_{in_output_name}")[idx_idxs_arr, :][:, col_idxs_arr])
-- 
2.43.0


From 77ab5bb278d1d7a364e5ce57abe672cbc9a0e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 28/33] fix: run_combs appended hidden parameters to the
 caller's and the factory's hide_params

---
 vectorbt/indicators/factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 6ded5c4..fd376e4 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3030,8 +3030,7 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_settings, kwargs.get("param_settings", {}), [param_names]  # get, not pop
                 )
 
-                if _hide_params is None:
-                    _hide_params = []
+                _hide_params = [] if _hide_params is None else list(_hide_params)
                 if _short_names is None:
                     _short_names = [f"{short_name}_{str(i + 1)}" for i in range(_r)]
 
-- 
2.43.0


From 7071b77e148fdc0667e2a292b63ab4a5df501f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 29/33] fix: a default referring to a parameter that has its
 default was passed on as a Default object

---
 vectorbt/indicators/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index fd376e4..8d941da 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -2801,7 +2801,7 @@ class IndicatorFactory:
                 if isinstance(input, str):
                     if input in all_input_names:
                         new_input = all_inputs[all_input_names.index(input)]
-                        if is_default:
+                        if is_default and not isinstance(new_input, Default):
                             new_input = Default(new_input)
                         all_inputs[i] = new_input
             input_list = all_inputs[: len(input_list)]
-- 
2.43.0


From fcaccedcef8aaaa60ccc72afe3b32a60f059e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 30/33] fix: SignalFactory wrote into the caller's
 attr_settings

---
 vectorbt/signals/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/factory.py b/vectorbt/signals/factory.py
index 4b607db..5cdbf5a 100644
--- a/vectorbt/signals/factory.py
+++ b/vectorbt/signals/factory.py
@@ -55,6 +55,8 @@ class SignalFactory(IndicatorFactory):
             input_names = list(input_names)
         if attr_settings is None:
             attr_settings = {}
+        else:
+            attr_settings = dict(attr_settings)
 
         if "entries" in input_names:
             raise ValueError("entries cannot be used in input_names")
-- 
2.43.0


From ea06b88115f95711a289262fc15e5551302f986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 31/33] fix: save_animation stored the duration of one
 animation in the caller's writer_kwargs

---
 vectorbt/utils/image_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/image_.py b/vectorbt/utils/image_.py
index 1e2cc89..3e5ec0e 100644
--- a/vectorbt/utils/image_.py
+++ b/vectorbt/utils/image_.py
@@ -68,6 +68,8 @@ def save_animation(
     """
     if writer_kwargs is None:
         writer_kwargs = {}
+    else:
+        writer_kwargs = dict(writer_kwargs)
     if "duration" not in writer_kwargs:
         writer_kwargs["duration"] = 1000 / fps
     if tqdm_kwargs is None:
-- 
2.43.0


From 8b6c6c57e0ccd20a61db79b00de9054a7c4a8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 32/33] fix: attach_fields with on_conflict='ignore' replaced
 existing attributes, as 'override' does

---
 vectorbt/records/decorators.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vectorbt/records/decorators.py b/vectorbt/records/decorators.py
index 63cc99e..33167fe 100644
--- a/vectorbt/records/decorators.py
+++ b/vectorbt/records/decorators.py
@@ -108,19 +108,21 @@ def attach_fields(*args, on_conflict: str = "raise") -> tp.Union[WrapperFuncT, t
                 attr_name += "_"
             return attr_name
 
-        def _check_attr_name(attr_name, _on_conflict: str = on_conflict) -> None:
+        def _check_attr_name(attr_name, _on_conflict: str = on_conflict) -> bool:
+            # Returns whether the attribute should be attached
             if attr_name not in cls.field_config.get("settings", {}):
                 # Consider only attributes that are not listed in the field config
                 if hasattr(cls, attr_name):
                     if _on_conflict.lower() == "raise":
                         raise ValueError(f"An attribute with the name '{attr_name}' already exists in {cls}")
                     if _on_conflict.lower() == "ignore":
-                        return
+                        return False
                     if _on_conflict.lower() == "override":
-                        return
+                        return True
                     raise ValueError(f"Value '{_on_conflict}' is invalid for on_conflict")
                 if keyword.iskeyword(attr_name):
                     raise ValueError(f"Name '{attr_name}' is a keyword and cannot be used as an attribute name")
+            return True
 
         if dtype is not None:
             for field_name in dtype.names:
@@ -142,7 +144,9 @@ def attach_fields(*args, on_conflict: str = "raise") -> tp.Union[WrapperFuncT, t
 
                 if attach:
                     target_name = _prepare_attr_name(target_name)
-                    _check_attr_name(target_name, _on_conflict)
+                    attach = _check_attr_name(target_name, _on_conflict)
+
+                if attach:
 
                     def new_prop(
                         self,
@@ -170,7 +174,8 @@ def attach_fields(*args, on_conflict: str = "raise") -> tp.Union[WrapperFuncT, t
                         if target_filter_name is None:
                             continue
                         target_filter_name = _prepare_attr_name(target_filter_name)
-                        _check_attr_name(target_filter_name, _on_conflict)
+                        if not _check_attr_name(target_filter_name, _on_conflict):
+                            continue
                         if target_filter_name in filter_defaults:
                             __filter_defaults = filter_defaults[target_filter_name]
                         else:
-- 
2.43.0


From 34f71476b9ac438e574c7dfb8963982ee09b2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 33/33] fix: to_tzaware_datetime dropped the time of day of
 np.datetime64 and failed for nanoseconds

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 3df2f67..5fee393 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -140,7 +140,7 @@ def to_tzaware_datetime(
     elif isinstance(dt_like, pd.Timestamp):
         dt = dt_like.to_pydatetime()
     elif isinstance(dt_like, np.datetime64):
-        dt = datetime.combine(dt_like.astype(datetime), time())
+        dt = pd.Timestamp(dt_like).to_pydatetime()
     else:
         dt = dt_like
 
-- 
2.43.0

