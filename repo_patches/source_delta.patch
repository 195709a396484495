From 09a88950215f6feeda25e6a323e5a7de38167e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 01/63] fix: MH reported unobserved combinations of categorical
 columns

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 7cd42d8..1b024fd 100644
--- a/operations.py
+++ b/operations.py
@@ -1258,7 +1258,7 @@ class MH(Comparison):
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
-    res = ((ka * nb * weights).groupby(to_split).sum() /
+    res = ((ka * nb * weights).groupby(to_split, observed=True).sum() /
            (kb * na * weights).groupby(to_split, observed=True).sum() - 1) * 100
     res.name = child.name
     to_split = [i for i in to_split if i not in self.extra_index]
-- 
2.43.0


From dbc5457d5534b8705a9eb2e2028f46b8bc2ea16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 02/63] fix: Dot returned the columns of the table when no row
 is left to split

---
 metrics.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metrics.py b/metrics.py
index 430ec2e..d020bd0 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1790,11 +1790,10 @@ class Dot(SimpleMetric):
     if not split_by:
       prod = (df[self.var] * df[self.var2])
       return prod.mean() if self.normalize else prod.sum()
-    if self.normalize:
-      fn = lambda df: (df[self.var] * df[self.var2]).mean()
-    else:
-      fn = lambda df: (df[self.var] * df[self.var2]).sum()
-    return df.groupby(split_by, observed=True).apply(fn)
+    # groupby().apply() would return the raw columns if df is empty.
+    prod = (df[self.var] * df[self.var2]).rename(self.name)
+    prod = prod.groupby([df[s] for s in split_by], observed=True)
+    return prod.mean() if self.normalize else prod.sum()
 
   def get_equivalent_without_filter(self, *auxiliary_cols):
     if self.normalize:
-- 
2.43.0


From 5353581e02d7740af6f91bd1dc43d329058c54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 03/63] fix: Quantile lost its columns when no row is left to
 split

---
 metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index d020bd0..839e074 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2131,7 +2131,8 @@ class Quantile(SimpleMetric):
     if self.one_quantile:
       return res
     if split_by:
-      res = res.unstack()
+      # If there is no row unstack() loses the columns.
+      res = res.unstack().reindex(columns=self.quantile)
       res.columns = [self.name_tmpl.format(self.var, c) for c in res]
       return res
     res = utils.unmelt(pd.DataFrame(res))
-- 
2.43.0


From 7f08cd7a32c4211fdcf92fc294c2fa03885841dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/63] fix: weighted Quantile reported unobserved combinations
 of categorical columns

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 839e074..e152e69 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2112,7 +2112,9 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
+      aggregated_weight = df.groupby(split_by + [self.var], observed=True)[
+          self.weight
+      ].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
-- 
2.43.0


From cc42dc7a28a2afe4070a92c36dfbedee402f5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 05/63] fix: weighted Quantile failed or lost its columns when
 there is no row

---
 metrics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metrics.py b/metrics.py
index e152e69..bce0e73 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2121,6 +2121,18 @@ class Quantile(SimpleMetric):
           - 0.5 * aggregated_weight
       )
       weighted_quantiles /= self.group(aggregated_weight, split_by).sum()
+      if weighted_quantiles.empty:  # np.interp() needs at least one point.
+        if self.one_quantile and not split_by:
+          return np.nan
+        return pd.DataFrame(
+            np.nan,
+            index=weighted_quantiles.index.droplevel(self.var)
+            if split_by
+            else [0],
+            columns=[self.name]
+            if self.one_quantile
+            else [self.name_tmpl.format(self.var, q) for q in self.quantile],
+        )
       if split_by:
         weighted_quantiles = weighted_quantiles.reset_index(self.var)
         return self.group(weighted_quantiles, split_by).apply(interp)
-- 
2.43.0


From 3590d5618fe31ae313210d307fd1082328da7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 06/63] fix: Nth lost the slices that have fewer than n + 1
 rows

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index bce0e73..859ec7b 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1967,12 +1967,14 @@ class Nth(SimpleMetric):
     )
 
   def compute_slices(self, df, split_by=None):
+    slices = self.group(df, split_by).size() if split_by else None
     if self.dropna:
       df = df.dropna(subset=[self.var])
     df = df.sort_values(self.sort_by, ascending=self.ascending)
     if split_by:
       res = self.group(df[split_by + [self.var]], split_by).nth(self.n)
-      return res.set_index(split_by)[self.var].sort_index()
+      # Slices with too few rows have no n-th row but still exist.
+      return res.set_index(split_by)[self.var].reindex(slices.index)
     if self.n > len(df) - 1:
       return np.nan
     return df[self.var].values[self.n]
-- 
2.43.0


From e74cab370122e82889c685ffff5ff2290442f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 07/63] fix: any composite of Sum and Count shared the cache of
 Mean

---
 metrics.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index 859ec7b..6baec60 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1640,9 +1640,19 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and s.where == c.where
+        and not c.distinct
+        and self.op(6.0, 2) == 3
+        and self.op(6.0, 3) == 2
+    ):
+      mean = Mean(s.var, where=s.where_)
+      if self.where_:
+        mean.add_where(self.where_)
+      return mean.get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 5e689070ba58347793f2c2997dab15f25776726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 08/63] fix: modifying a result served from the cache modified
 the cached result

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 6baec60..097e3de 100644
--- a/metrics.py
+++ b/metrics.py
@@ -355,7 +355,9 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    val = self.cache[key]
+    # Callers rename columns in-place, which must not affect the cached one.
+    return val.copy() if isinstance(val, (pd.Series, pd.DataFrame)) else val
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-- 
2.43.0


From ea5ad824ee47157a2c4eaa9291bfe359399bc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 09/63] fix: Nxx counted one group too many when the shares
 reach it exactly

---
 diversity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index 8c0916e..55bd1c1 100644
--- a/diversity.py
+++ b/diversity.py
@@ -251,7 +251,8 @@ class Nxx(DiversityBase):
   def nxx_for_one_col(self, col, split_by):
     sorted_col = col.sort_values(split_by + list(col.columns), ascending=False)
     cumsum = self.group(sorted_col, split_by).cumsum()
-    res = self.group(cumsum < self.share, split_by).sum() + 1
+    # Shares that add up to self.share might fall short of it when rounded.
+    res = self.group(cumsum < self.share * (1 - 1e-9), split_by).sum() + 1
     return self.to_dataframe(res)
 
   def get_sql_and_with_clause(
@@ -309,7 +310,7 @@ class Nxx(DiversityBase):
 
       nxx_col = sql.Column(
           cumsum_col.alias,
-          'COUNTIF({} < %s) + 1' % self.share,
+          'COUNTIF({} < %s) + 1' % (self.share * (1 - 1e-9)),
       )
       nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
       nxx_cols.add(nxx_col)
-- 
2.43.0


From 6385415da048f9c6efd1efb0772c3b6d8ba1829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 10/63] fix: dividing by a distinct count of zero raised
 instead of giving a missing value

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 097e3de..98c88c7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1741,7 +1741,10 @@ class Count(SimpleMetric):
 
   def compute_slices(self, df, split_by=None):
     grped = self.group(df, split_by)[self.var]
-    return grped.nunique() if self.distinct else grped.count()
+    if self.distinct:
+      # Series.nunique() is a Python int, dividing by which could raise.
+      return grped.nunique() if split_by else np.int64(grped.nunique())
+    return grped.count()
 
   def get_sql_columns(self, local_filter):
     if self.distinct:
-- 
2.43.0


From bb009fda37e90177e8161285417927f88d736b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 11/63] fix: precomputed jackknife kept slices that vanish when
 a unit is left out

---
 operations.py | 14 +++++++++++---
 utils.py      |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index 1b024fd..fb2a307 100644
--- a/operations.py
+++ b/operations.py
@@ -2385,12 +2385,20 @@ class Jackknife(MetricWithCI):
 
     key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
     if not self.in_cache(key):
+      has_data = each_bucket.index
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
-      loo = total - each_bucket
       if split_by:
-        # The levels might get messed up.
-        loo = loo.reorder_levels(split_by_with_unit)
+        # Only keep the slices of each_bucket. If we just subtract, the slices
+        # that only appear in total will be added, under a missing unit.
+        loo = total.reindex(each_bucket.index.droplevel(self.unit))
+        loo.index = each_bucket.index
+        loo = loo - each_bucket
+        # The slice disappears when its only unit that has data is left out.
+        sole = ~has_data.droplevel(self.unit).duplicated(keep=False)
+        loo = loo.mask(loo.index.isin(has_data[sole]))
+      else:
+        loo = total - each_bucket
       self.save_to_cache(key, loo)
 
   def compute_children(
diff --git a/utils.py b/utils.py
index a7c29d5..211b3fe 100644
--- a/utils.py
+++ b/utils.py
@@ -501,7 +501,7 @@ def adjust_slices_for_loo(
     b[suffix] = 1
     on = suffix
   cross_joined = expected_units.merge(
-      b, on=on, how='outer', suffixes=('', suffix)
+      b, on=on, how='inner', suffixes=('', suffix)
   )
   expected_slices = (
       cross_joined[cross_joined[unit] != cross_joined[f'{unit}{suffix}']]
-- 
2.43.0


From d5e7dbca6aba1299f5da3bf2a53122010fef5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 12/63] fix: resampling units that the inner operation also
 groups by raised an error

---
 operations.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index fb2a307..65833af 100644
--- a/operations.py
+++ b/operations.py
@@ -2548,7 +2548,12 @@ class Jackknife(MetricWithCI):
 
   def can_precompute(self):
     """LOO can be precomputed if all leaves can be expressed as Sum or Count."""
-    return self.enable_optimization and is_metric_precomputable(self)
+    return (
+        self.enable_optimization
+        # The data cannot be split by unit twice.
+        and self.unit not in utils.get_extra_split_by(self, True)
+        and is_metric_precomputable(self)
+    )
 
 
 def is_metric_precomputable(metric: MetricWithCI) -> bool:
@@ -2760,7 +2765,11 @@ class Bootstrap(MetricWithCI):
 
   def can_precompute(self):
     return (
-        self.unit and self.enable_optimization and is_metric_precomputable(self)
+        self.unit
+        and self.enable_optimization
+        # The data cannot be split by unit twice.
+        and self.unit not in utils.get_extra_split_by(self, True)
+        and is_metric_precomputable(self)
     )
 
 
-- 
2.43.0


From 58ba4b034c364bdbb08fbd61883beaca0d0272a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 13/63] fix: preaggregated bootstrap counted slices whose drawn
 units have no data passing the filter as zero

---
 operations.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/operations.py b/operations.py
index 65833af..cc6af2d 100644
--- a/operations.py
+++ b/operations.py
@@ -3165,7 +3165,7 @@ def get_preaggregated_data(m, df, split_by):
   filter_in_leaf = utils.push_filters_to_leaf(m)
   leafs = metrics.MetricList(tuple(set(utils.get_leaf_metrics(filter_in_leaf))))
   preagg_df = m.compute_util_metric_on(leafs, df, all_split_by)
-  preagg_leafs = get_preaggregated_metric_tree(leafs)
+  preagg_leafs = get_preaggregated_metric_tree(leafs, True)
   preagg_df.columns = [c.var for c in preagg_leafs]
   preagg_df = preagg_df.loc[:, ~preagg_df.columns.duplicated()].copy()
   preagg_df = preagg_df.reindex(original_idx.index)
@@ -3174,32 +3174,37 @@ def get_preaggregated_data(m, df, split_by):
   for l, p in zip(leafs, preagg_leafs):
     key = utils.CacheKey(l, m.cache_key, l.where_, all_split_by)
     res = m.get_cached(key)
-    key = key.replace_metric(p).replace_where(m.cache_key.where)
+    key = utils.CacheKey(p, m.cache_key, p.where_, all_split_by)
     m.save_to_cache(key, res)
-  preagg = get_preaggregated_metric_tree(filter_in_leaf)
+  preagg = get_preaggregated_metric_tree(filter_in_leaf, True)
   return preagg, preagg_df
 
 
-def get_preaggregated_metric_tree(m):
+def get_preaggregated_metric_tree(m, skip_missing=False):
   """Gets the equivalent Metric of m on the preaggregated data."""
   if not isinstance(m, metrics.Metric):
     return m
   if not m.children:
-    return get_preaggregated_metric(m)
+    return get_preaggregated_metric(m, skip_missing)
   m = copy.copy(m)
-  m.children = [get_preaggregated_metric_tree(c) for c in m.children]
+  m.children = [
+      get_preaggregated_metric_tree(c, skip_missing) for c in m.children
+  ]
   m.has_been_preaggregated = True
   return m
 
 
-def get_preaggregated_metric(m):
+def get_preaggregated_metric(m, skip_missing=False):
   """Gets the equivalent metric of on the preaggregated data if m is a leaf."""
   var = get_preaggregated_metric_var(m)
+  # Units without data that satisfy m.where have a missing value, see
+  # get_preaggregated_data(). In SQL aggregations skip them already.
+  where = f'{var} == {var}' if skip_missing and m.where else None
   if isinstance(m, metrics.Max):
-    return metrics.Max(var, name=m.name)
+    return metrics.Max(var, name=m.name, where=where)
   if isinstance(m, metrics.Min):
-    return metrics.Min(var, name=m.name)
-  return metrics.Sum(var, name=m.name)
+    return metrics.Min(var, name=m.name, where=where)
+  return metrics.Sum(var, name=m.name, where=where)
 
 
 def get_preaggregated_metric_var(m: metrics.Metric):
-- 
2.43.0


From f31eb16da1d7272a9eb43816c6577836de9db287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 14/63] fix: preaggregated columns of distinct metrics collided
 when their names differ in special characters only

---
 operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index cc6af2d..cd5fde9 100644
--- a/operations.py
+++ b/operations.py
@@ -20,6 +20,7 @@ from __future__ import print_function
 import copy
 from typing import Any, Iterable, List, Optional, Sequence, Text, Tuple, Union
 import warnings
+import zlib
 
 from meterstick import confidence_interval_display
 from meterstick import metrics
@@ -3221,7 +3222,11 @@ def get_preaggregated_metric_var(m: metrics.Metric):
   }
   name = tmpl_lookup[type(m)] % m.var
   name = f'{name} where {m.where}' if m.where else name
-  return sql.Column(name).alias
+  alias = sql.Column(name).alias
+  if m.where or sql.escape_alias(m.var) != m.var:
+    # Special characters are not kept in alias so it might not be unique.
+    alias += '_%08x' % zlib.crc32(name.encode())
+  return alias
 
 
 def get_se_sql(
-- 
2.43.0


From 31ba226c5266019985f36c3b01446c3d2fd275de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 15/63] fix: cache keys grew exponentially with the number of
 cached bootstrap samples

---
 metrics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 98c88c7..7266e11 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1076,12 +1076,15 @@ class Metric(object):
     # 1. The copied Metric can share the same cache to maximize caching.
     # 2. When deepcopy a Metric, its cache refers to CacheKey and CacheKey
     # refers back. The loop leads to missing attributes error.
+    # Nor do we copy self.cache_key. It has a Metric, which has a cache_key and so
+    # on, and copying the chain makes every CacheKey several times larger than
+    # the previous one.
     cls = self.__class__
     obj = cls.__new__(cls)
     memo[id(self)] = obj
     for k, v in self.__dict__.items():
-      if k == 'cache':
-        obj.cache = v
+      if k in ('cache', 'cache_key'):
+        setattr(obj, k, v)
       else:
         setattr(obj, k, copy.deepcopy(v, memo))
     return obj
-- 
2.43.0


From e125b2db884757dfaa0d25c6dd346819bbf55b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 16/63] fix: weighted quantile in SQL was doubled at an
 interior weight and lost at the last one

---
 metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index 7266e11..7768d4e 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2227,9 +2227,9 @@ class Quantile(SimpleMetric):
       FROM QuantileWeights)
     2. For each quantile q, SELECT
     SUM(IF((prev_weight IS NULL AND q < weight) OR
-             (next_weight IS NULL AND q > weight),
+             (next_weight IS NULL AND q >= weight),
            val,
-           IF(q BETWEEN weight AND next_weight,
+           IF(q >= weight AND q < next_weight,
               (next_value * (q - weight) + (next_weight - q) * val) /
                 (next_weight - weight),
               0))).
@@ -2339,8 +2339,8 @@ class Quantile(SimpleMetric):
       )
       cols.add(
           sql.Column(
-              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
-    IF({q} BETWEEN {w} AND {next_w}, {interp}, 0)))""",
+              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} >= {w}), {v},
+    IF({q} >= {w} AND {q} < {next_w}, {interp}, 0)))""",
               alias=f'{self.weight}-weighted quantile({self.var}, {q})',
           )
       )
-- 
2.43.0


From 98c0bb6fdaf95b82a0849ac596bb237b75ad9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 17/63] fix: quantiles in SQL were truncated, e.g. 0.29 to the
 28th percentile

---
 metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 7768d4e..a56fefb 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2181,7 +2181,7 @@ class Quantile(SimpleMetric):
       alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
-          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % int(100 * self.quantile),
+          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % round(100 * self.quantile),
           alias, local_filter)
 
     query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
@@ -2191,7 +2191,7 @@ class Quantile(SimpleMetric):
       if alias.startswith('0.'):
         alias = 'point_' + alias[2:]
       quantiles.append(
-          sql.Column(self.var, query % int(100 * q), alias, local_filter))
+          sql.Column(self.var, query % round(100 * q), alias, local_filter))
     return sql.Columns(quantiles)
 
   def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
-- 
2.43.0


From 430b6e04500fb4544da5451c3564c549566d39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 18/63] fix: MetricList in SQL referred to columns by the alias
 they had before being merged

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index a56fefb..ca6438b 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1340,11 +1340,14 @@ class MetricList(Metric):
         else:
           join = 'FULL' if indexes else 'CROSS'
           from_data = sql.Join(from_data, alias, join=join, using=indexes)
+      # The columns might have been renamed when the child was merged.
+      merged_columns = with_data.children[alias].columns
       for c in child_sql.columns:
         if c not in columns:
+          merged = [m for m in merged_columns if m.expression == c.expression]
           columns.add(
               sql.Column(
-                  '%s.%s' % (alias, c.alias),
+                  '%s.%s' % (alias, merged[0].alias),
                   alias=name_tmpl.format(c.alias_raw),
               )
           )
-- 
2.43.0


From e22660bb3c304c2cf20d499fdfaf5e64e6bae89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 19/63] fix: a SQL column found under a suffixed alias was
 referred to without the suffix

---
 sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sql.py b/sql.py
index 0240477..808865c 100644
--- a/sql.py
+++ b/sql.py
@@ -456,10 +456,11 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = self.get_alias(expr)
-    if found:
-      children.set_alias(found)
-      return self
+    for c in self:
+      if c.expression == expr:
+        children.set_alias(c.alias_raw)
+        children.suffix = c.suffix
+        return self
     if alias not in self.aliases:
       self.children.append(children)
       return self
-- 
2.43.0


From 218e427899a9ba59ff268fee26986953a55ce1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 20/63] fix: CumulativeDistribution in SQL kept the values that
 are not in order

---
 operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index cd5fde9..bbb3abd 100644
--- a/operations.py
+++ b/operations.py
@@ -393,7 +393,12 @@ class CumulativeDistribution(Distribution):
       )
       col.set_alias('Cumulative %s' % c.alias_raw)
       columns.add(col)
-    return sql.Sql(columns, child_table_alias), with_data
+    where = None
+    if self.order:  # Only the listed values are kept.
+      over = sql.Column(self.extra_index[0]).alias
+      listed = ', '.join(_format_to_condition(o) for o in self.order)
+      where = '%s IN (%s)' % (over, listed)
+    return sql.Sql(columns, child_table_alias, where), with_data
 
   def get_ordered_col(self, over):
     if self.order:
-- 
2.43.0


From 1c952a2aed1921c4031a58029f0d2418ec7975cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 21/63] fix: Distribution in SQL divided the index columns of
 an Operation in the child

---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index bbb3abd..adeeb0d 100644
--- a/operations.py
+++ b/operations.py
@@ -262,6 +262,9 @@ class Distribution(Operation):
     for c in child_sql.columns:
       if c.alias in groupby:
         continue
+      if c.alias in indexes.aliases:  # Added by an Operation in the child.
+        groupby.add(c.alias)
+        continue
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-- 
2.43.0


From 34cedd9597623ef53284eac1c1c44d47b7521bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 22/63] fix: jackknife in SQL lost the replicates of units
 absent from a group

---
 operations.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/operations.py b/operations.py
index adeeb0d..78fde4e 100644
--- a/operations.py
+++ b/operations.py
@@ -3414,10 +3414,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3451,13 +3448,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3508,7 +3501,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3542,8 +3534,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3554,10 +3544,8 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # The unit might be absent in the slice or have no value in it.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3575,7 +3563,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From 5e340d7b47585fa3f77dae050f7b1b8ca7b03914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 23/63] fix: Entropy in SQL failed when a share is zero

---
 diversity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index 55bd1c1..12c402f 100644
--- a/diversity.py
+++ b/diversity.py
@@ -121,14 +121,14 @@ class Entropy(DiversityBase):
         sql.Columns(split_by.aliases).add(self.extra_split_by).aliases
     )
     columns = sql.Columns()
-    # For every value column, compute -SUM(val * LOG(val)) which is the entropy.
+    # For every value column, compute -SUM(val * SAFE.LOG(val)) which is the entropy.
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
 
       col = sql.Column(
           (c.alias, c.alias),
-          '-SUM({} * LOG({}))',
+          '-SUM({} * SAFE.LOG({}))',
       )
       col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
-- 
2.43.0


From c57801846a22f25dd16d973b82a038cb22d89b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 24/63] fix: TopK and Nxx in SQL referred to columns by the
 alias they had before being merged

---
 diversity.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/diversity.py b/diversity.py
index 12c402f..a7b5d20 100644
--- a/diversity.py
+++ b/diversity.py
@@ -200,7 +200,7 @@ class TopK(DiversityBase):
         sql.Columns(split_by.aliases).add(self.extra_split_by).aliases
     )
     top_k_array_columns = sql.Columns()
-    top_k_sum_columns = sql.Columns(indexes.aliases)
+    top_k_array_cols = []
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
@@ -211,17 +211,21 @@ class TopK(DiversityBase):
       )
       top_k_array_col.set_alias(c.alias_raw)
       top_k_array_columns.add(top_k_array_col)
-      top_k_sum_col = sql.Column(
-          top_k_array_col.alias,
-          '(SELECT SUM(x) FROM UNNEST({}) AS x)',
-      )
-      top_k_sum_col.set_alias(self.name_tmpl.format(c.alias_raw))
-      top_k_sum_columns.add(top_k_sum_col)
+      top_k_array_cols.append((top_k_array_col, c.alias_raw))
     top_k_sql = sql.Sql(
         top_k_array_columns, child_table_alias, groupby=indexes.aliases
     )
     top_k_table = sql.Datasource(top_k_sql, 'TopKArrays')
+    # The array columns might get new aliases here.
     top_k_table_alias = with_data.merge(top_k_table)
+    top_k_sum_columns = sql.Columns(indexes.aliases)
+    for array_col, name in top_k_array_cols:
+      top_k_sum_col = sql.Column(
+          array_col.alias,
+          '(SELECT SUM(x) FROM UNNEST({}) AS x)',
+      )
+      top_k_sum_col.set_alias(self.name_tmpl.format(name))
+      top_k_sum_columns.add(top_k_sum_col)
     return sql.Sql(top_k_sum_columns, top_k_table_alias), with_data
 
 
@@ -293,7 +297,7 @@ class Nxx(DiversityBase):
         sql.Columns(split_by.aliases).add(self.extra_split_by).aliases
     )
     cumsum_cols = sql.Columns(indexes.aliases)
-    nxx_cols = sql.Columns()
+    cumsum_value_cols = []
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
@@ -307,14 +311,17 @@ class Nxx(DiversityBase):
       )
       cumsum_col.set_alias('Cumulative %s' % c.alias_raw)
       cumsum_cols.add(cumsum_col)
-
+      cumsum_value_cols.append((cumsum_col, c.alias_raw))
+    cumsum_sql = sql.Sql(cumsum_cols, child_table_alias)
+    cumsum_table = sql.Datasource(cumsum_sql, 'CumulativeDistribution')
+    # The cumulative columns might get new aliases here.
+    cumsum_alias = with_data.merge(cumsum_table)
+    nxx_cols = sql.Columns()
+    for cumsum_col, name in cumsum_value_cols:
       nxx_col = sql.Column(
           cumsum_col.alias,
           'COUNTIF({} < %s) + 1' % (self.share * (1 - 1e-9)),
       )
-      nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
+      nxx_col.set_alias(self.name_tmpl.format(name))
       nxx_cols.add(nxx_col)
-    cumsum_sql = sql.Sql(cumsum_cols, child_table_alias)
-    cumsum_table = sql.Datasource(cumsum_sql, 'CumulativeDistribution')
-    cumsum_alias = with_data.merge(cumsum_table)
     return sql.Sql(nxx_cols, cumsum_alias, groupby=indexes.aliases), with_data
-- 
2.43.0


From a30d86b8196da2cc3d72206586a276f2f8609359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 25/63] fix: Poisson bootstrap in SQL repeated the weights of
 units whose labels run into the replicate number

---
 operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 78fde4e..f36fc70 100644
--- a/operations.py
+++ b/operations.py
@@ -2927,7 +2927,7 @@ class PoissonBootstrap(Bootstrap):
     because the table has been preaggregated, then we explicitly SELECT those
     columns instead of using '*'. Second, RAND() is used when sampling by row.
     When we need to sample by groups, we use
-    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING),
+    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING), ',',
       CAST(meterstick_resample_idx AS STRING)))
       / 0xFFFFFFFFFFFFFFFF + 0.5
     to get the uniformly distributed random variable. The hashing makes sure
@@ -3026,7 +3026,8 @@ class PoissonBootstrap(Bootstrap):
         else split_by.original_columns
     )
     if self.unit:
-      cols = ', '.join(
+      # The separator keeps e.g. ('1', '12') and ('11', '2') different.
+      cols = ", ',', ".join(
           map(
               'CAST({} AS STRING)'.format,
               (split_by_cols or []) + [self.unit, 'meterstick_resample_idx'],
-- 
2.43.0


From e40187a269c2bfd6e4469f0ef9d3ea824fc2b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 26/63] fix: building a query took the WITH clause away from
 the Sql object passed as its table

---
 sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 808865c..189ecc3 100644
--- a/sql.py
+++ b/sql.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import collections
 from collections import abc
+import copy
 import functools
 import re
 from typing import Iterable, Optional, Text, Union
@@ -719,10 +720,12 @@ class Sql(SqlComponent):
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
       if from_data_table.with_data:
+        # The input might be used again so we modify a copy.
+        from_data_table = copy.deepcopy(from_data_table)
         with_data_to_merge = from_data_table.with_data
         from_data_table.with_data = None
         self.from_data = Datasource(
-            with_data_to_merge.add(Datasource(from_data, 'NoNameTable'))
+            with_data_to_merge.add(Datasource(from_data_table, 'NoNameTable'))
         )
         self.with_data.extend(with_data_to_merge)
       if not self.columns:
-- 
2.43.0


From b6f724ef033f0ab300c27107f563fed62176c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 27/63] fix: PoissonBootstrap by unit repeated the same weights
 in every batch of compute_on_sql(mode='mixed')

---
 operations.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/operations.py b/operations.py
index f36fc70..ea83323 100644
--- a/operations.py
+++ b/operations.py
@@ -2724,33 +2724,21 @@ class Bootstrap(MetricWithCI):
     with_data = sql.Datasources()
     if not sql.Datasource(table).is_table:
       table = with_data.add(sql.Datasource(table, 'BootstrapData'))
-    with_data2 = copy.deepcopy(with_data)
-    _, with_data = util_metric.get_resampled_data_sql(
-        table,
-        sql.Columns(split_by),
-        global_filter,
-        None,
-        with_data,
-    )
-    resampled = with_data.children.popitem()[1]
-    resampled.with_data = with_data
     replicates = []
-    for _ in range(self.n_replicates // batch_size):
-      bst = self.children[0].compute_on_sql(
-          resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
-      )
-      replicates.append(bst.unstack('meterstick_resample_idx'))
-    util_metric.n_replicates = self.n_replicates % batch_size
-    if util_metric.n_replicates:
-      _, with_data2 = util_metric.get_resampled_data_sql(
+    for done in range(0, self.n_replicates, batch_size):
+      util_metric.n_replicates = min(batch_size, self.n_replicates - done)
+      # The weights of PoissonBootstrap are hashed from the replicate numbers so
+      # the numbers need to differ across batches.
+      util_metric.first_replicate = done + 1
+      _, batch_data = util_metric.get_resampled_data_sql(
           table,
           sql.Columns(split_by),
           global_filter,
           None,
-          with_data2,
+          copy.deepcopy(with_data),
       )
-      resampled = with_data2.children.popitem()[1]
-      resampled.with_data = with_data2
+      resampled = batch_data.children.popitem()[1]
+      resampled.with_data = batch_data
       bst = self.children[0].compute_on_sql(
           resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
       )
@@ -2791,6 +2779,8 @@ class PoissonBootstrap(Bootstrap):
   for an introduction.
   """
 
+  first_replicate = 1  # The number of the first replicate in SQL.
+
   def __init__(
       self,
       unit: Optional[Text] = None,
@@ -3039,7 +3029,11 @@ class PoissonBootstrap(Bootstrap):
       )
     uniform_columns.add(uniform_var)
     replicates = sql.Datasource(
-        'UNNEST(GENERATE_ARRAY(1, %s))' % self.n_replicates,
+        'UNNEST(GENERATE_ARRAY(%s, %s))'
+        % (
+            self.first_replicate,
+            self.first_replicate + self.n_replicates - 1,
+        ),
         'meterstick_resample_idx',
     )
     table_with_uniform_var = sql.Sql(
-- 
2.43.0


From f239c712a3b3274850f0e5dcaabf688073b53956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 28/63] fix: Bootstrap in compute_on_sql(mode='mixed')
 resampled anew for every leaf Metric of a replicate

---
 operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operations.py b/operations.py
index ea83323..5fd3347 100644
--- a/operations.py
+++ b/operations.py
@@ -2716,6 +2716,10 @@ class Bootstrap(MetricWithCI):
       self, table, split_by, execute, mode=None, batch_size=None
   ):
     """Compute the children on resampled data in SQL."""
+    # Every query resamples the data anew. To have all the Metrics computed on
+    # the same resamples, the child must be computed in one query if possible.
+    if mode == 'mixed':
+      mode = None
     batch_size = batch_size or 1000
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-- 
2.43.0


From f76d172157a38e6a99ea6c183eeeda91c2986b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 29/63] fix: a Metric used before under a cache_key mixed up
 the splits and filters of a later call with a cache_key

---
 metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.py b/metrics.py
index ca6438b..2a994d0 100644
--- a/metrics.py
+++ b/metrics.py
@@ -325,6 +325,10 @@ class Metric(object):
       pd.DataFrame, otherwise it could be a base type.
     """
     self.cache = {} if cache is None else cache
+    if not isinstance(cache_key, utils.CacheKey):
+      # self is the root Metric. The key that a previous computation left is for
+      # other data, filters or split_by.
+      self.cache_key = None
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
-- 
2.43.0


From 4360a5721401426fa8d750b786c0446538f1d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 30/63] fix: the result of a Metric with confidence could not
 be read from a cache filled by another object

---
 metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 2a994d0..11e165a 100644
--- a/metrics.py
+++ b/metrics.py
@@ -332,10 +332,10 @@ class Metric(object):
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
-        self.cache_key = key
         raw_res = compute_fn(df, split_by, *args, **kwargs)
         self.save_to_cache(key, raw_res)
 
-- 
2.43.0


From daee8403b377ca79927cbfd0c608d483ad5c013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 31/63] fix: cache keys with equal hashes, like -1 and -2,
 shared results

---
 utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 211b3fe..5a301dc 100644
--- a/utils.py
+++ b/utils.py
@@ -402,7 +402,10 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    # Comparing hashes isn't enough, for example hash(-1) == hash(-2).
+    return (
+        isinstance(other, CacheKey) and self.fingerprint == other.fingerprint
+    )
 
   def __hash__(self):
     return hash((
-- 
2.43.0


From 676946efe3a545954328b46a55cc624bd2379c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 32/63] fix: resamples of different data or units shared
 results in the cache

---
 operations.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/operations.py b/operations.py
index 5fd3347..be9fc05 100644
--- a/operations.py
+++ b/operations.py
@@ -1762,6 +1762,22 @@ class MetricWithCI(Operation):
     base.columns = ['_base_value']
     return base
 
+  def get_resample_key(self, *resample):
+    """Returns the cache key of a resample of the data being computed on.
+
+    The same resample, for example, leaving out unit 1, gives different data
+    when the data or the unit is different.
+
+    Args:
+      *resample: Identifies the resample.
+    """
+    return (
+        '_RESERVED',
+        type(self).__name__,
+        self.unit,
+        self.cache_key and self.cache_key.key,
+    ) + resample
+
   @staticmethod
   def add_base_to_res(res, base):
     with warnings.catch_warnings():
@@ -2376,7 +2392,7 @@ class Jackknife(MetricWithCI):
       None. Two additional results are saved to the cache.
       1. The total sum/count, which is each_bucket summed over self.unit.
       2. The LOO estimates, which is saved under key
-        ('_RESERVED', 'Jackknife', self.unit).
+        self.get_resample_key().
     """
     if not cache_key.split_by:
       return
@@ -2392,7 +2408,7 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(self.get_resample_key())
     if not self.in_cache(key):
       has_data = each_bucket.index
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
@@ -2426,7 +2442,7 @@ class Jackknife(MetricWithCI):
         df,
         split_by + [self.unit],
         True,
-        cache_key=('_RESERVED', 'Jackknife', self.unit),
+        cache_key=self.get_resample_key(),
     )
     return [replicates.unstack(self.unit)]
 
@@ -2442,7 +2458,7 @@ class Jackknife(MetricWithCI):
       return_cache_key: If to return a cache key.
 
     Yields:
-      ('_RESERVED', 'Jackknife', unit, i) if return_cache_key else None, and the
+      self.get_resample_key(i) if return_cache_key else None, and the
       leave-i-out DataFrame.
     """
     levels = df[self.unit].unique()
@@ -2451,7 +2467,7 @@ class Jackknife(MetricWithCI):
 
     if not split_by:
       for lvl in levels:
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
+        key = self.get_resample_key(lvl)
         yield key if return_cache_key else None, df[df[self.unit] != lvl]
     else:
       df = df.set_index(split_by)
@@ -2462,7 +2478,7 @@ class Jackknife(MetricWithCI):
         if len(unique_slice_val) != max_slices:
           # Keep only the slices that appeared in the dropped bucket.
           df_rest = df_rest[df_rest.index.isin(unique_slice_val)]
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
+        key = self.get_resample_key(lvl)
         yield key if return_cache_key else None, df_rest.reset_index()
 
   @staticmethod
@@ -2495,7 +2511,7 @@ class Jackknife(MetricWithCI):
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
-        key = ('_RESERVED', 'Jackknife', self.unit, unit)
+        key = self.get_resample_key(unit)
         loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
                                      key)
         # If a slice doesn't have the unit in the input data, we should exclude
@@ -2516,7 +2532,7 @@ class Jackknife(MetricWithCI):
             ).join(table, on='meterstick_resample_idx != %s' % self.unit),
             self.where_,
         )
-        key = ('_RESERVED', 'Jackknife', self.unit, tuple(units))
+        key = self.get_resample_key(tuple(units))
         loo = self.compute_child_sql(
             loo,
             split_by + ['meterstick_resample_idx'],
@@ -2703,7 +2719,7 @@ class Bootstrap(MetricWithCI):
       for _ in range(self.n_replicates):
         resampled = units_grped.sample(frac=1, replace=True).index
         if use_cache:
-          cache_key = tuple(resampled)
+          cache_key = self.get_resample_key(tuple(resampled))
           if cache_key in sampled:
             yield cache_key, None
           else:
@@ -2868,7 +2884,7 @@ class PoissonBootstrap(Bootstrap):
         weights = self.get_sample_weight(n)
         cache_key = None
         if use_cache:
-          cache_key = tuple(weights)
+          cache_key = self.get_resample_key(tuple(weights))
           if cache_key in sampled:
             yielded = True
             yield cache_key, None
-- 
2.43.0


From 267de1f08e81fbf81bbc204384c48c6c6015db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 33/63] fix: a custom Metric got the cached result of another
 instance which had been at the same address

---
 metrics.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 11e165a..e82ea89 100644
--- a/metrics.py
+++ b/metrics.py
@@ -142,6 +142,13 @@ BUILT_INS = [
 ]
 
 
+class InstanceId(object):
+  """Identifies an instance. Unlike id(), it's never reused while referred to."""
+
+  def __deepcopy__(self, memo):
+    return self
+
+
 class Metric(object):
   """Core class of Meterstick.
 
@@ -233,6 +240,7 @@ class Metric(object):
                extra_index: Optional[Union[Text, Iterable[Text]]] = None,
                additional_fingerprint_attrs: Optional[List[str]] = None):
     self.name = name
+    self.instance_id = InstanceId()
     self.cache = {}
     self.cache_key = None
     self.children = [children] if isinstance(children,
@@ -1041,7 +1049,7 @@ class Metric(object):
     # custom Metrics with cache_across_instances being True. Otherwise different
     # instances of the same class are always saved under different keys.
     if type(self).__name__ not in BUILT_INS and not self.cache_across_instances:
-      fingerprint['id'] = id(self)
+      fingerprint['id'] = self.instance_id
     if self.children:
       fingerprint['children'] = (
           c.get_fingerprint(attr_to_exclude) if isinstance(c, Metric) else c
@@ -1091,6 +1099,7 @@ class Metric(object):
         setattr(obj, k, v)
       else:
         setattr(obj, k, copy.deepcopy(v, memo))
+    obj.instance_id = InstanceId()
     return obj
 
 
-- 
2.43.0


From 755b3a38d14bcff688ae953a32c2c41b1829e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 34/63] fix: PrePostChange and CUPED failed when the child and
 a covariate have the same name

---
 operations.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index be9fc05..8682cae 100644
--- a/operations.py
+++ b/operations.py
@@ -772,6 +772,11 @@ class PrePostChange(PercentChange):
     # Align child with covariates in case there is any missing slices.
     covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
+    # The names might not be unique, for example, when the child and covariates
+    # only differ in the filters.
+    aligned.columns = [
+        'meterstick_col_%s' % i for i in range(aligned.shape[1])
+    ]
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
 
@@ -812,7 +817,9 @@ class PrePostChange(PercentChange):
         ]
         return pd.DataFrame([adjusted], columns=child_slice.columns)
 
-    return Adjust('').compute_on(aligned, split_by + self.extra_index)
+    adjusted = Adjust('').compute_on(aligned, split_by + self.extra_index)
+    adjusted.columns = child.columns
+    return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
@@ -1003,6 +1010,11 @@ class CUPED(AbsoluteChange):
     # Align child with covariates in case there is any missing slices.
     covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
+    # The names might not be unique, for example, when the child and covariates
+    # only differ in the filters.
+    aligned.columns = [
+        'meterstick_col_%s' % i for i in range(aligned.shape[1])
+    ]
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
     extra_index = self.extra_index
@@ -1043,7 +1055,9 @@ class CUPED(AbsoluteChange):
           adjusted[c] = adjusted[c] - adjusted.iloc[:, len_child:].dot(theta)
         return adjusted.iloc[:, :len_child]
 
-    return Adjust('').compute_on(aligned, split_by)
+    adjusted = Adjust('').compute_on(aligned, split_by)
+    adjusted.columns = child.columns
+    return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
-- 
2.43.0


From 87c553a549db689d4457ee044e598be884113b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 35/63] fix: MH mixed up the numerator and the denominator when
 they have the same name

---
 operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index 8682cae..f114087 100644
--- a/operations.py
+++ b/operations.py
@@ -1272,10 +1272,14 @@ class MH(Comparison):
     """Computes MH statistics for one Metric."""
     level = self.extra_index[0] if len(
         self.extra_index) == 1 else self.extra_index
-    df_baseline = df_all.xs(self.baseline_key, level=level)
     suffix = '_base'
-    numer = child.children[0].name
-    denom = child.children[1].name
+    numer = 'numerator'
+    denom = 'denominator'
+    # The names might be the same, for example, when they only differ in filters.
+    df_all = pd.concat(
+        [df_all.iloc[:, 0], df_all.iloc[:, -1]], axis=1, keys=[numer, denom]
+    )
+    df_baseline = df_all.xs(self.baseline_key, level=level)
     df_mh = df_all.join(df_baseline, rsuffix=suffix)
     ka, na = df_mh[numer], df_mh[denom]
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
-- 
2.43.0


From 7293c2e04c2c54a2d23e67b1616f53d9fa822aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 36/63] fix: PrePostChange and CUPED of several outcomes took
 all but the first for covariates in mixed mode

---
 operations.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index f114087..bf114c3 100644
--- a/operations.py
+++ b/operations.py
@@ -824,8 +824,14 @@ class PrePostChange(PercentChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
                   self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    # The result of the child might have multiple columns.
+    post_metric = self.children[0].children[0]
+    try:
+      n_post = len(post_metric.to_sql(copy.deepcopy(table)).columns)
+    except NotImplementedError:
+      n_post = 1
+    covariates = child.iloc[:, n_post:]
+    child = child.iloc[:, :n_post]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1062,8 +1068,14 @@ class CUPED(AbsoluteChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
                                                     mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    # The result of the child might have multiple columns.
+    post_metric = self.children[0].children[0]
+    try:
+      n_post = len(post_metric.to_sql(copy.deepcopy(table)).columns)
+    except NotImplementedError:
+      n_post = 1
+    covariates = child.iloc[:, n_post:]
+    child = child.iloc[:, :n_post]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From 2f7d56b7f4c58ac1d84c0afb28e90a836b9774dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 37/63] fix: weighted Quantile failed when the values are the
 weights

---
 metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index e82ea89..eddb61b 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2139,9 +2139,11 @@ class Quantile(SimpleMetric):
 
   def compute_slices(self, df, split_by=None):
     if self.weight:
+      position = 'meterstick_position'
+
       # Adapted from https://stackoverflow.com/a/29677616/12728137.
       def interp(d):
-        res = np.interp(self.quantile, d[self.weight], d[self.var])
+        res = np.interp(self.quantile, d[position], d[self.var])
         if self.one_quantile:
           return res
         return pd.DataFrame(
@@ -2157,6 +2159,8 @@ class Quantile(SimpleMetric):
           - 0.5 * aggregated_weight
       )
       weighted_quantiles /= self.group(aggregated_weight, split_by).sum()
+      # self.weight could be the same as self.var.
+      weighted_quantiles.name = position
       if weighted_quantiles.empty:  # np.interp() needs at least one point.
         if self.one_quantile and not split_by:
           return np.nan
-- 
2.43.0


From 9ad86a166b10e991a0c25806e300bfbc773a4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 38/63] fix: falsy cache keys like 0 and '' stood for no key
 and shared results

---
 metrics.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index eddb61b..253773f 100644
--- a/metrics.py
+++ b/metrics.py
@@ -339,7 +339,7 @@ class Metric(object):
       self.cache_key = None
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
-      key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      key = self.wrap_cache_key(cache_key, split_by)
       self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
@@ -354,9 +354,15 @@ class Metric(object):
         self.clean_up_cache()
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
-    if key and not isinstance(key, utils.CacheKey) and self.cache_key:
+    # Keys like 0 and '' are falsy but valid.
+    if (
+        key is not None
+        and not isinstance(key, utils.CacheKey)
+        and self.cache_key is not None
+    ):
       key = self.cache_key.replace_key(key)
-    key = key or self.cache_key
+    if key is None:
+      key = self.cache_key
     return utils.CacheKey(self, key, where or self.where_, split_by, slice_val)
 
   def save_to_cache(self, key, val, split_by=None):
-- 
2.43.0


From ed6b0e8aa21f7482e8dfb9c0e9c880944886f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 39/63] fix: hash of a custom Metric disagreed with its
 equality

---
 metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 253773f..e11320a 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1033,7 +1033,8 @@ class Metric(object):
     return True
 
   def __hash__(self):
-    return hash((self.name, self.get_fingerprint()))
+    # Must agree with __eq__, which doesn't compare the 'id'.
+    return hash((self.name, self.get_fingerprint(['id'])))
 
   def get_fingerprint(self, attr_to_exclude=()):
     """Returns attributes that uniquely identify the Metric.
-- 
2.43.0


From 8d2ef12eccdf3e628785ac577d81533932f4335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 40/63] fix: renamed columns of a MetricList were matched after
 melting, which failed on empty results

---
 metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index e11320a..8cba5db 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1198,14 +1198,13 @@ class MetricList(Metric):
       apply_name_tmpl: bool = None,
   ):
     """Rename columns if asked in addition to original manipulation."""
+    # Columns can only be told apart before melting.
     res = super(MetricList, self).manipulate(
-        res, melted, return_dataframe, apply_name_tmpl
+        res, melted and not self.columns, return_dataframe, apply_name_tmpl
     )
     if not isinstance(res, pd.DataFrame):
       return res
     if self.columns:
-      if melted:
-        res = utils.unmelt(res)
       if len(res.columns) != len(self.columns):
         raise ValueError(
             'rename_columns has length %s but there are %s columns in '
-- 
2.43.0


From 37fcb68f314a279a7f4ee13a7b70ada64132ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 41/63] fix: arguments of the underlying model were not part of
 the fingerprint of Models

---
 models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/models.py b/models.py
index 80ba026..7029d7e 100644
--- a/models.py
+++ b/models.py
@@ -158,6 +158,14 @@ class Model(operations.Operation):
   def group_by(self):
     return self.extra_split_by
 
+  def get_fingerprint(self, attr_to_exclude=()):
+    fingerprint = super(Model, self).get_fingerprint(attr_to_exclude)
+    if hasattr(self.model, 'get_params'):
+      # Any argument of the underlying model could affect the coefficients.
+      params = sorted(self.model.get_params().items())
+      fingerprint += tuple((k, repr(v)) for k, v in params)
+    return fingerprint
+
   def __call__(self, child):
     if not isinstance(child, metrics.MetricList):
       raise ValueError(f'Model can only take a MetricList but got {child}!')
-- 
2.43.0


From f9f8a6beb8ac1d454e654b69ce6367695940f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 42/63] fix: magic mode of Lasso and ElasticNet ignored
 'positive'

---
 models.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/models.py b/models.py
index 7029d7e..3c7adb8 100644
--- a/models.py
+++ b/models.py
@@ -682,6 +682,7 @@ class Lasso(Model):
         self.name,
         tol=self.tol,
         max_iter=self.max_iter,
+        positive=self.model.positive,
     ).compute_on_sql_magic_mode(table, split_by, execute)
 
 
@@ -764,6 +765,7 @@ class ElasticNet(Model):
         self.fit_intercept,
         self.tol,
         self.max_iter,
+        self.model.positive,
     )
     if self.fit_intercept and self.normalize:
       coef = compute_normalized_coef(coef, norms, avgs, split_by)
@@ -774,7 +776,14 @@ class ElasticNet(Model):
 
 
 def compute_coef_for_elastic_net(
-    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter
+    sufficient_stats_elements,
+    xs,
+    l1,
+    l2,
+    fit_intercept,
+    tol,
+    max_iter,
+    positive=False,
 ):
   """Computes the coefficients for ElasticNet. Lasso is just a special case."""
   if fit_intercept:
@@ -786,7 +795,7 @@ def compute_coef_for_elastic_net(
   )
   init_guess = np.random.random(*x_t_y.shape)
   coef = fista_for_elastic_net(
-      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive
   )
   columns = list(xs.aliases)
   if fit_intercept:
@@ -833,7 +842,7 @@ def center_x(sufficient_stats_elements, n):
 
 
 def fista_for_elastic_net(
-    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive=False
 ):
   """Applies FISTA algorithm to elastic net.
 
@@ -864,6 +873,7 @@ def fista_for_elastic_net(
     tol: The tolerance for the optimization.
     max_iter: The maximum number of iterations.
     fit_intercept: If the coefficients include an intercept.
+    positive: If the coefficients, except for the intercept, must be positive.
 
   Returns:
     The converged coef, namely, the coefficients of the model.
@@ -881,9 +891,9 @@ def fista_for_elastic_net(
     coef_old = coef
     coef = v - step_size * (x_t_x @ v - x_t_y)
     if fit_intercept:
-      coef[1:] = soft_thresholding(coef[1:] / k, threshold)
+      coef[1:] = soft_thresholding(coef[1:] / k, threshold, positive)
     else:
-      coef = soft_thresholding(coef / k, threshold)
+      coef = soft_thresholding(coef / k, threshold, positive)
     delta = coef - coef_old
     if abs(delta).sum() < tol:
       return coef
@@ -891,7 +901,9 @@ def fista_for_elastic_net(
   return coef
 
 
-def soft_thresholding(x, thresh):
+def soft_thresholding(x, thresh, positive=False):
+  if positive:
+    return np.maximum(x - thresh, 0)
   return np.maximum(x - thresh, 0) + np.minimum(x + thresh, 0)
 
 
-- 
2.43.0


From 9ff8aad242ca8d072bd36848ff4012e98f17671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 43/63] fix: magic mode of LogisticRegression only worked for
 classes 0 and 1

---
 models.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/models.py b/models.py
index 3c7adb8..5aaa64c 100644
--- a/models.py
+++ b/models.py
@@ -1069,10 +1069,13 @@ class LogisticRegression(Model):
       raise ValueError('intercept_scaling is not supported in magic mode!')
 
     y = self.y.to_sql(table, self.group_by + split_by)
-    n_y = metrics.Count(y.columns[-1].alias, distinct=True)
-    n_y = n_y.compute_on_sql(
-        y, y.groupby.aliases[len(self.group_by):], execute
-    )
+    y_alias = y.columns[-1].alias
+    classes = metrics.MetricList(
+        (metrics.Count(y_alias, distinct=True), metrics.Max(y_alias))
+    ).compute_on_sql(y, y.groupby.aliases[len(self.group_by):], execute)
+    n_y = classes.iloc[:, [0]]
+    # sklearn takes the larger of the two classes of a slice as the positive one.
+    positive_classes = classes.iloc[:, 1].sort_index().values
     if (n_y.values != 2).any():
       raise ValueError(
           f'Magic mode only support two classes but got {n_y} distinct y'
@@ -1130,20 +1133,24 @@ class LogisticRegression(Model):
       k = len(coef[0])
       if not split_by:
         grads, hessian = get_grads_and_hess_query(
-            coef[0], ignore_hess=ignore_hess
+            coef[0], positive_classes[0], ignore_hess=ignore_hess
         )
       else:
         grads = []
         hessian = []
         split_cols = sql.Columns(split_by).aliases
-        for cond, slice_coef, done in zip(conds, coef, converged):
+        for cond, slice_coef, positive_class, done in zip(
+            conds, coef, positive_classes, converged
+        ):
           if not done:
             condition = [
                 f'{c} = "{v}"' if isinstance(v, str) else f'{c} = {v}'
                 for c, v in zip(split_cols, cond)
             ]
             condition = ' AND '.join(condition)
-            j, h = get_grads_and_hess_query(slice_coef, condition, ignore_hess)
+            j, h = get_grads_and_hess_query(
+                slice_coef, positive_class, condition, ignore_hess
+            )
             grads += j
             hessian += h
       for i, c in enumerate(grads):
@@ -1173,7 +1180,9 @@ class LogisticRegression(Model):
       self._hess = np.array(hess_arr)
       return np.array(grads)
 
-    def get_grads_and_hess_query(coef, condition=None, ignore_hess=True):
+    def get_grads_and_hess_query(
+        coef, positive_class, condition=None, ignore_hess=True
+    ):
       """Get the SQL columns to compute the gradients and Hessian matrixes.
 
       The formula of gradients and Hessian matrixes can be found in
@@ -1184,6 +1193,7 @@ class LogisticRegression(Model):
       Args:
         coef: A n*k list of coefficients being optimized, where n is the number
           of slices and k is the number of features.
+        positive_class: The value of y whose probability is modeled.
         condition: A condition that can be applied in the WHERE clause. The
           gradients and Hessian matrixes will be computed on the rows that
           satisfies the condition.
@@ -1199,8 +1209,13 @@ class LogisticRegression(Model):
       # A numerically stable implemntation, adapted from
       # http://fa.bianp.net/blog/2019/evaluate_logistic.
       z = ' + '.join(f'{coef[i]} * {xs[i]}' for i in range(len(xs)))
+      is_positive = f'IF({y} = {positive_class}, 1, 0)'
       grads = [
-          sql.Column(f'{x} * {sig_minus_b(z, y)}', 'AVG({})', filters=condition)
+          sql.Column(
+              f'{x} * {sig_minus_b(z, is_positive)}',
+              'AVG({})',
+              filters=condition,
+          )
           for x in xs
       ]
       sig_z = """IF({z} < 0,
-- 
2.43.0


From 55276e86bd06c989854f7499c37c0e51cbb1ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 44/63] fix: jackknife failed when a model could not be fitted
 on a single unit

---
 operations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index bf114c3..1bef768 100644
--- a/operations.py
+++ b/operations.py
@@ -2380,7 +2380,14 @@ class Jackknife(MetricWithCI):
       util, df = utils.get_fully_expanded_equivalent_metric_tree(self, df)
       return self.compute_util_metric_on(util, df, split_by)
 
-    self.compute_child(df, split_by + [self.unit])
+    try:
+      self.compute_child(df, split_by + [self.unit])
+    except Exception:  # pylint: disable=broad-except
+      # The child cannot be computed on a single unit, for example a
+      # LogisticRegression needs data from more than one class.
+      util = copy.copy(self)
+      util.enable_optimization = False
+      return self.compute_util_metric_on(util, df, split_by)
     precomputed = self.find_all_in_cache_by_metric_type(metric=metrics.Sum)
     precomputed.update(
         self.find_all_in_cache_by_metric_type(metric=metrics.Count)
-- 
2.43.0


From cad896f099baca835670998b5cd04dc14dd1f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:50 +0000
Subject: [PATCH 45/63] fix: conditions with an OR without spaces around lost
 their parentheses

---
 sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 189ecc3..b12fc8e 100644
--- a/sql.py
+++ b/sql.py
@@ -183,7 +183,9 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    if re.search(r'\bOR\b', self.cond, re.IGNORECASE):
+      return '(%s)' % self.cond
+    return self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From 4baeae69c997247f8f58506e563123f5f1454410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:50 +0000
Subject: [PATCH 46/63] fix: == inside a string literal of a condition was
 changed

---
 sql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index b12fc8e..2d88427 100644
--- a/sql.py
+++ b/sql.py
@@ -178,7 +178,12 @@ class Filter(SqlComponent):
     if isinstance(cond, Filter):
       self.cond = cond.cond
     elif cond:
-      self.cond = cond.replace('==', '=') or ''
+      # Leave the string literals as they are.
+      self.cond = re.sub(
+          r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|==""",
+          lambda m: m.group(1) or '=',
+          cond,
+      )
 
   def __str__(self):
     if not self.cond:
-- 
2.43.0


From 1d03eedfd5e42c4783f5ed14cbfe470f90bb6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 47/63] fix: subqueries were mixed up when WITH clauses with
 the same names were put together

---
 sql.py | 63 +++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/sql.py b/sql.py
index 2d88427..da309be 100644
--- a/sql.py
+++ b/sql.py
@@ -72,6 +72,30 @@ def get_alias(c):
   return getattr(c, 'alias_raw', c)
 
 
+def rename_tables(query, renamed):
+  """Changes the tables a query refers to, all at once.
+
+  Args:
+    query: A Sql instance or a string.
+    renamed: A dict of the names of the tables to the new names.
+
+  Returns:
+    The query with the names after FROM and JOIN and in the qualified columns
+    changed. A string if there is anything to change.
+  """
+  tables = '|'.join(re.escape(t) for t in renamed)
+  if not tables or not re.search(r'\b(%s)\b' % tables, str(query)):
+    return query
+  return re.sub(
+      r'(\b(?:FROM|JOIN)\s+`?)(?:(%s)\b(?!\s*\.)|\w+)|(?<!\.)\b(%s)(?=`?\.)'
+      % (tables, tables),
+      lambda m: (m.group(1) or '') + renamed[m.group(2) or m.group(3)]
+      if m.group(2) or m.group(3)
+      else m.group(0),
+      str(query),
+  )
+
+
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
   special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
@@ -687,17 +711,27 @@ class Datasources(SqlComponents):
 
   def extend(self, other: 'Datasources'):
     """Merge other to self. Adjust the query if a new alias is needed."""
-    datasources = list(other.datasources)
-    while datasources:
-      d = datasources.pop(0)
+    self.add_and_rename(other)
+    return self
+
+  def add_and_rename(self, other: 'Datasources'):
+    """Adds other to self. Adjusts the queries in other that refer to renamed ones.
+
+    Args:
+      other: The datasources to add. A datasource only refers to the ones before
+        it.
+
+    Returns:
+      A dict of the aliases in other that have changed to the new ones.
+    """
+    renamed = {}
+    for d in list(other.datasources):
       original_alias = d.alias
+      d.table = rename_tables(d.table, renamed)
       new_alias = self.add(d)
       if original_alias != new_alias:
-        for d2 in datasources:
-          if original_alias in str(d2):
-            d2.table = re.sub(r'\b%s\b' % original_alias, new_alias,
-                              str(d2.table))
-    return self
+        renamed[original_alias] = new_alias
+    return renamed
 
   def __str__(self):
     return ',\n'.join((d.get_expression('WITH') for d in self.datasources if d))
@@ -726,16 +760,21 @@ class Sql(SqlComponent):
     self.from_data = from_data
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
+      renamed = {}
       if from_data_table.with_data:
         # The input might be used again so we modify a copy.
         from_data_table = copy.deepcopy(from_data_table)
         with_data_to_merge = from_data_table.with_data
         from_data_table.with_data = None
-        self.from_data = Datasource(
-            with_data_to_merge.add(Datasource(from_data_table, 'NoNameTable'))
+        alias = with_data_to_merge.add(
+            Datasource(from_data_table, 'NoNameTable')
         )
-        self.with_data.extend(with_data_to_merge)
-      if not self.columns:
+        renamed = self.with_data.add_and_rename(with_data_to_merge)
+        self.from_data = Datasource(renamed.get(alias, alias))
+      if renamed:
+        # The inner Sql refers to the original names.
+        pass
+      elif not self.columns:
         # Consolidate outer and inner Sql if the outer Sql doesn't have columns.
         self.columns = from_data_table.columns
         self.where = Filters(from_data_table.where).add(self.where)
-- 
2.43.0


From ced80ea5cf91e4175d74fc0ed62ac4bbc0ed4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:19 +0000
Subject: [PATCH 48/63] fix: conditions on the result of a query were applied
 to its input

---
 sql.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sql.py b/sql.py
index da309be..309da5b 100644
--- a/sql.py
+++ b/sql.py
@@ -776,12 +776,15 @@ class Sql(SqlComponent):
         pass
       elif not self.columns:
         # Consolidate outer and inner Sql if the outer Sql doesn't have columns.
-        self.columns = from_data_table.columns
-        self.where = Filters(from_data_table.where).add(self.where)
-        self.groupby = from_data_table.groupby
-        self.orderby = from_data_table.orderby
-        self.from_data = from_data_table.from_data
-      elif not from_data_table.columns:
+        # The outer conditions are about the columns the inner Sql has, so they
+        # cannot be applied to its input unless that has the same columns.
+        if not self.where or not from_data_table.all_columns:
+          self.columns = from_data_table.columns
+          self.where = Filters(from_data_table.where).add(self.where)
+          self.groupby = from_data_table.groupby
+          self.orderby = from_data_table.orderby
+          self.from_data = from_data_table.from_data
+      elif not from_data_table.all_columns:
         # Consolidate outer and inner Sql if the inner Sql doesn't have columns.
         self.where = Filters(from_data_table.where).add(self.where)
         self.from_data = from_data_table.from_data
-- 
2.43.0


From 98514f0801d2860c5a8e4670e67ca92a1f4c2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 49/63] fix: the display showed controls which were to be
 hidden when their values were inferred

---
 confidence_interval_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..c2ab38c 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -277,7 +277,7 @@ def _pre_aggregate_df(
       # Make a copy to avoid "A value is trying to be set on a copy of a slice
       # from a DataFrame." warning.
       df = df[~df['Is_Control']].copy()
-  if auto_decide_control_vals:
+  if auto_decide_control_vals and show_control:
     df = add_control_rows(df, dims)
   pre_agg_df = _sorted_long_to_wide(df, dims, sort_by)
   if aggregate_dimensions:
-- 
2.43.0


From c7c54e618be10930a48cfb183b6636e95777db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 50/63] fix: the display skipped no inconsistent control values
 and failed when none was valid

---
 confidence_interval_display.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index c2ab38c..efe5752 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -499,7 +499,7 @@ def add_control_rows(df, dims):
       'Control_Value'
   ]
   control_vals = grp.agg(['max', 'min'])
-  thresh = 1**-5
+  thresh = 1e-5
   ambiguous_vals = control_vals[control_vals['max'] -
                                 control_vals['min'] > thresh]
   msg = ('Warning: Metric "%s" of control %s in slice %s has inconsistent '
@@ -507,12 +507,13 @@ def add_control_rows(df, dims):
   for k in ambiguous_vals.iterrows():
     print(msg % (k[0][0], k[0][1], k[0][2:]))
   valid_ctrl = control_vals[control_vals['max'] -
-                            control_vals['min'] < thresh][['min']]
+                            control_vals['min'] <= thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From b83e1d718cb2fc7c90ed2c4ad92664ae620b21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 51/63] fix: the display modified the caller's sort_by and
 metric_formats

---
 confidence_interval_display.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index efe5752..5c3bd38 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -325,7 +325,7 @@ class MetricFormatter(object):
                metric_formats=None,
                if_flip_color=None,
                hide_null_ctrl=False):
-    metric_formats = metric_formats or {}
+    metric_formats = dict(metric_formats or {})
     metric_formats.setdefault('Value', 'absolute')
     metric_formats.setdefault('Ratio', 'absolute')
     self.if_flip_color = if_flip_color
@@ -697,9 +697,10 @@ def get_formatted_df(
     for i, d in enumerate(dims):
       col_rename[d] = 'Dim_%s' % (i + 1)
     dims = ['Dim_%s' % i for i in range(1, len(dims) + 1)]
-  sort_by = sort_by or []
-  for s in sort_by:
-    s['column'] = col_rename.get(s['column'], s['column'])
+  sort_by = [
+      dict(s, column=col_rename.get(s['column'], s['column']))
+      for s in sort_by or []
+  ]
   df_renamed = df.rename(columns=col_rename)
   formatted_df = _pre_aggregate_df(
       df_renamed,
-- 
2.43.0


From a7691212acd1972539fef3320322fe0df29b0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 52/63] fix: the display lost the rows without a description

---
 confidence_interval_display.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 5c3bd38..385adc3 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -255,6 +255,9 @@ def _pre_aggregate_df(
     df['CI_Upper'] = df['Ratio'] + (df['CI_Range'] / 2)
     df['CI_Lower'] = df['Ratio'] - (df['CI_Range'] / 2)
   df = _add_is_control_and_control_id(df, ctrl_id)
+  if 'Description' in df:
+    # Missing values would get dropped when grouping.
+    df['Description'] = df['Description'].astype(object).fillna('')
 
   if auto_add_description:
     is_ctrl = df['Is_Control'] if 'Is_Control' in df else None
-- 
2.43.0


From db97e2482e27a87f97bbc4ab0fe27c6ffd8760cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 53/63] fix: the display had an additional column when sorted
 in an order given for the only dimension

---
 confidence_interval_display.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 385adc3..7b5f1dc 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -169,9 +169,10 @@ def _sorted_long_to_wide(df, dims, sort_by):
         if col in df:
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
         else:
-          df.reset_index(col, inplace=True)
+          index_cols = list(df.index.names)
+          df.reset_index(inplace=True)
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
-          df.set_index(col, append=True, inplace=True)
+          df.set_index(index_cols, inplace=True)
   if sorting_cols:
     df = df.sort_values(sorting_cols, ascending=ascending)
   # Collects [Value, Ratio, CI_Lower, CI_Upper] for each Metric * slice. val_col
-- 
2.43.0


From 011ecd92365ca553d644333f6e8c571abed2adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 54/63] fix: the display showed N/A for the ids of the controls
 or left them out

---
 confidence_interval_display.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 7b5f1dc..3303940 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -479,7 +479,9 @@ def _get_formatter(df,
   """
   custom_formatter = {}
   for i, col in enumerate(df.columns):
-    if col in dims + ['Experiment_Id', 'Is_Control', 'Description']:
+    if col in dims + [
+        'Experiment_Id', 'Control_Id', 'Is_Control', 'Description'
+    ]:
       custom_formatter[i] = '<div>{}</div>'.format
     elif col == 'Dimensions':
       custom_formatter[i] = dimension_formatter
@@ -721,7 +723,7 @@ def get_formatted_df(
   if metric_order:
     # Sort metric order based on the given argument or default metric order.
     columns = ['Dimensions'] if aggregate_dimensions else dims[:]
-    columns += ['Experiment_Id', 'Is_Control', 'Description']
+    columns += ['Experiment_Id', 'Control_Id', 'Is_Control', 'Description']
     columns += list(metric_order)
     # Column names are not always the same type.
     column_order = pd.array([c for c in columns if c in formatted_df],
-- 
2.43.0


From 755b0a1ac0b1f9db765015ba51f6dfcaf0449e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 55/63] fix: the display did not tell the rows of an experiment
 whose id is 0

---
 confidence_interval_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 3303940..ec1abca 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -446,7 +446,7 @@ def dimension_formatter(x,
   d = []
   if description:
     d.append(span(description, 'ci-display-description-text'))
-  if expr_id:
+  if expr_id is not None and expr_id != '':  # Could be 0.
     d.append(span(expr_id, 'ci-display-experiment-id'))
   if slice_info:
     d.append(span(slice_info, 'ci-display-dimension'))
-- 
2.43.0


From f0b7a7bff483464a051fb68fbcdf24e1185e7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 56/63] fix: options of display which show values failed for
 results without a control

---
 operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operations.py b/operations.py
index 1bef768..1cddef6 100644
--- a/operations.py
+++ b/operations.py
@@ -1602,6 +1602,8 @@ def get_display_fn(name,
     metric_order = list(res.index.get_level_values(
         0).unique()) if metric_order is None else metric_order
     res = res.reset_index()
+    if base is None:
+      res['_base_value'] = None
     control = ctrl_id
     condition_col = condition_column
     if condition_column:
-- 
2.43.0


From 237ab13b72670de5d74cd009d30adf07ee4f3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:06 +0000
Subject: [PATCH 57/63] fix: a query with window functions was merged with one
 of aggregations

---
 sql.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 309da5b..97491e6 100644
--- a/sql.py
+++ b/sql.py
@@ -35,7 +35,9 @@ def is_compatible(sql0, sql1):
   1. SELECT FROM the same data source
   2. have same GROUP BY clauses
   3. have the same WITH clause (usually None)
-  4. do not SELECT DISTINCT.
+  4. do not SELECT DISTINCT
+  5. when there is no GROUP BY, either both or neither use window functions, as
+     window functions keep all the rows while aggregations don't.
 
   Args:
     sql0: A Sql instance.
@@ -53,9 +55,15 @@ def is_compatible(sql0, sql1):
       and sql0.with_data == sql1.with_data
       and not sql0.columns.distinct
       and not sql1.columns.distinct
+      and (bool(sql0.groupby) or has_window(sql0) == has_window(sql1))
   )
 
 
+def has_window(query):
+  """Checks if any column of the query uses a window function."""
+  return any(' OVER (' in e for e in query.columns.expressions)
+
+
 def add_suffix(alias):
   """Adds an int suffix to alias."""
   alias = alias.strip('`')
-- 
2.43.0


From 3152307bdad3417c8203defe2e8937dcf89e52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:25 +0000
Subject: [PATCH 58/63] fix: the query of MH ignored the filter of a list of
 ratios when looking for their columns

---
 operations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 1cddef6..89273c0 100644
--- a/operations.py
+++ b/operations.py
@@ -1451,14 +1451,20 @@ class MH(Comparison):
     if isinstance(child, metrics.MetricList):
       for c in child:
         with_data2 = copy.deepcopy(with_data)
-        util = metrics.MetricList(c.children[:1], where=c.where_)
+        util = metrics.MetricList(
+            [metrics.MetricList(c.children[:1], where=c.where_)],
+            where=child.where_,
+        )
         numer_sql, with_data2 = util.get_sql_and_with_clause(
             table, groupby, global_filter, util_indexes, local_filter,
             with_data2)
         with_data2.merge(sql.Datasource(numer_sql))
         numer = numer_sql.columns[-1].alias
         with_data2 = copy.deepcopy(with_data)
-        util = metrics.MetricList(c.children[1:], where=c.where_)
+        util = metrics.MetricList(
+            [metrics.MetricList(c.children[1:], where=c.where_)],
+            where=child.where_,
+        )
         denom_sql, with_data2 = util.get_sql_and_with_clause(
             table, groupby, global_filter, util_indexes, local_filter,
             with_data2)
-- 
2.43.0


From bc75e363b300acb6582a862511f22a52f5c4c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:40 +0000
Subject: [PATCH 59/63] fix: magic mode of Lasso and ElasticNet gave complex
 numbers with recent versions of numpy

---
 models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 5aaa64c..945480f 100644
--- a/models.py
+++ b/models.py
@@ -882,7 +882,7 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvals(x_t_x).max()
+  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -1343,7 +1343,7 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvals(x_t_x).max()
+    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From a2cd61ff71139286eed1fc00398148c360084e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:07 +0000
Subject: [PATCH 60/63] fix: magic mode of Lasso, ElasticNet and
 LogisticRegression with l1 might stop before coefficients leave 0

---
 models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 945480f..182e92f 100644
--- a/models.py
+++ b/models.py
@@ -895,7 +895,9 @@ def fista_for_elastic_net(
     else:
       coef = soft_thresholding(coef / k, threshold, positive)
     delta = coef - coef_old
-    if abs(delta).sum() < tol:
+    # Where the momentum leads to may be thresholded to what we already have, so
+    # we need coef to be a fixed point too.
+    if abs(delta).sum() < tol and abs(coef - v).sum() < tol:
       return coef
   print("WARNING: Lasso/ElasticNet didn't converge! Try increasing `max_iter`.")
   return coef
@@ -1388,7 +1390,11 @@ def fista_for_logistic_regression(
           coef[pending] / k[pending], threshold[pending]
       )
     delta[pending] = coef[pending] - coef_old[pending]
-    converged[pending] = abs(delta[pending]).max(1) < tol
+    # Where the momentum leads to may be thresholded to what we already have, so
+    # we need coef to be a fixed point too.
+    converged[pending] = (abs(delta[pending]).max(1) < tol) & (
+        abs(coef[pending] - v[pending]).max(1) < tol
+    )
     if all(converged):
       return coef
   if n_slice == 1:
-- 
2.43.0


From 2375e2f8ef73151d6559ee156c1bf8c4e0d049f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:08 +0000
Subject: [PATCH 61/63] fix: magic mode of models with l1 penalty failed when
 all features of a slice are 0

---
 models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 182e92f..a178d55 100644
--- a/models.py
+++ b/models.py
@@ -882,7 +882,8 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
+  # If all features are 0, so is the gradient and any step size works.
+  step_size = (1 - 1e-6) / (np.linalg.eigvalsh(x_t_x).max() or 1)
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -1345,7 +1346,8 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
+    # If all features are 0, so is the gradient and any step size works.
+    return 3.999999 / (np.linalg.eigvalsh(x_t_x).max() or 1)
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From a125326febfb40f2bd4f41830181ee8d414d148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 62/63] fix: bootstraps mixed up columns like a and _a

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 89273c0..dc572c7 100644
--- a/operations.py
+++ b/operations.py
@@ -3291,7 +3291,7 @@ def get_preaggregated_metric_var(m: metrics.Metric):
   name = tmpl_lookup[type(m)] % m.var
   name = f'{name} where {m.where}' if m.where else name
   alias = sql.Column(name).alias
-  if m.where or sql.escape_alias(m.var) != m.var:
+  if m.where or alias != f'{type(m).__name__.lower()}_{m.var}':
     # Special characters are not kept in alias so it might not be unique.
     alias += '_%08x' % zlib.crc32(name.encode())
   return alias
-- 
2.43.0


From 1936f54c3264f3a4157ed06ea460b2810aef9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:38 +0000
Subject: [PATCH 63/63] fix: the optimized jackknife and bootstrap failed on
 metrics computed slice by slice

---
 operations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operations.py b/operations.py
index dc572c7..6ea48d1 100644
--- a/operations.py
+++ b/operations.py
@@ -2633,6 +2633,12 @@ def is_metric_precomputable(metric: MetricWithCI) -> bool:
       return False
     if isinstance(m, metrics.Count) and m.distinct:
       return False
+    if (
+        m.children
+        and type(m).compute_children is metrics.Metric.compute_children
+        and type(m).compute_slices is metrics.Metric.compute_slices
+    ):
+      return False  # It is computed slice by slice so needs the data.
     precomputable_leaf_types = (metrics.Sum, metrics.Count)
     if not isinstance(metric, Jackknife):
       precomputable_leaf_types = tuple(
-- 
2.43.0

