From 1cb5c15f0bb594e52aefa6e8cc762c127510a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 01/26] fix: aggregate records by cell before flooring first
 development period values

The floor was applied record by record, so a cell made of several records,
some of them negative, was not the sum of its records. It also wrote into
the caller's DataFrame.
---
 trikit/triangle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..4716115 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,10 +45,9 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]]
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
-- 
2.43.0


From 5b10b8e9cfdd6dbf9a731293eedadb3fae4ade0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 02/26] fix: cumulate tabular data by cell and development
 period, not in record order

Unsorted records, or several records for one cell, gave a wrong
cumulative triangle (and wrong increments for data_format="cum").
---
 trikit/triangle.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 4716115..d563648 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -460,10 +460,9 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        # Aggregate records by cell, then cumulate in development period order.
+        data = data.groupby([origin, dev], as_index=False)[value].sum()
+        data[value] = data.groupby(origin)[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
@@ -1373,10 +1372,9 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            df = data.groupby([origin, dev], as_index=False)[value].sum()
+            incr = df.groupby(origin)[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
         else:
             df = data
     else:
-- 
2.43.0


From 7f24aceb03bb3d1e95378ccc0877ce9ec30ec9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 03/26] fix: support custom origin, dev and value column names
 beyond totri

to_tbl, latest, to_cum and every estimator raised KeyError for a triangle
built with non-default column names.
---
 trikit/estimators/bootstrap.py |  3 ++-
 trikit/triangle.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..7cb4064 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).drop(self.tri.value, axis=1).rename(
+            {self.tri.origin: "origin", self.tri.dev: "dev"}, axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index d563648..fcd0098 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -209,9 +209,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -346,7 +346,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -431,7 +431,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -963,7 +963,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1047,7 +1047,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From 7205963a493e2f5e8a1b503a9398dc6beb557932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 04/26] fix: base_cl no longer appends the tail factor to the
 caller's ldf series

A second call with the same series raised ValueError.
---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..14c924d 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,7 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
+                # Append tail factor to sel, leaving the caller's series as is.
+                sel = sel.copy()
                 increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
                 sel.loc[sel.index.max() + increment] = tail
 
-- 
2.43.0


From 58baaa8f5136cd3a1e92ca6113d8a5dc2a3d3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 05/26] fix: index the tail factor by the triangle's last
 development period

The label was extrapolated from the first ldf increment, which failed for a
2x2 triangle and gave NaN for unevenly spaced development periods.
---
 trikit/estimators/base.py | 6 ++----
 trikit/estimators/mack.py | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 14c924d..29bc600 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -105,8 +105,7 @@ class BaseChainLadder:
 
                 # Append tail factor to sel, leaving the caller's series as is.
                 sel = sel.copy()
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                sel.loc[self.tri.devp.max()] = tail
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
@@ -173,8 +172,7 @@ class BaseChainLadder:
         """
         # Determine index for tail factor.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..4e270ce 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -267,8 +267,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(ldfs)
 
 
-- 
2.43.0


From 9e7510c8a32c474786731e79f94eb4eaae49d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 06/26] fix: project ultimates with the cldf of each origin's
 own maturity

Cldfs were matched to origins by position, so an origin whose latest cell is
missing was developed with another maturity's factor.
---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 29bc600..63484a6 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -218,7 +218,7 @@ class BaseChainLadder:
         pd.Series
         """
         ultimates = pd.Series(
-            data=self.tri.latest_by_origin.values * cldfs.values[::-1],
+            data=self.tri.latest_by_origin.values * cldfs.loc[self.tri.maturity].values,
             index=self.tri.index, name="ultimate"
             )
         return(ultimates.astype(float).sort_index())
-- 
2.43.0


From 94e47a6129d74a7da9cf90f3853b2f86f2fd26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 07/26] fix: medial average of no link ratios is NaN

Excluding every link ratio of a development period raised IndexError from
a2a_avgs and base_cl.
---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index fcd0098..22a6dc9 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -548,7 +548,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.size == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From 9bdfde08da506e2d36ae0ace570e7f3fe1dbe39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 08/26] fix: weighted age-to-age averages honor a2aind
 exclusions

Only the simple, geometric and medial averages dropped excluded link ratios.
---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 22a6dc9..bceb873 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -823,6 +823,10 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = (final_cell_indx - duration) if \
                             (final_cell_indx - duration) >= 0 else 0
 
+                    # Remove excluded link ratios.
+                    included = self.a2aind.iloc[:, col].reindex(self.index) == 1
+                    t_ic_1, t_ic_2 = t_ic_1.where(included), t_ic_2.where(included)
+
                     # Divide sum of t_ic_2 by t_ic_1.
                     sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
                     sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
-- 
2.43.0


From efa08d45e0343dd95e9ea356b7805365aaae88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 09/26] fix: ignore origin, dev and value for
 data_shape="triangle", as documented

Non-default names, or a named index, raised KeyError.
---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index bceb873..9f2478f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1357,6 +1357,10 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
+        # Field names do not apply to triangle-shaped data.
+        origin, dev, value = "origin", "dev", "value"
+        data = data.rename_axis("origin", axis=0)
+
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
             incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-- 
2.43.0


From 83ce101a3e1838885295065457749cc01303cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 10/26] fix: keep amounts that follow a missing cell of a
 cumulative triangle

Differencing across the missing cell gave NaN for the next cell as well, so
its amount was dropped.
---
 trikit/triangle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9f2478f..eb5debe 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1368,8 +1368,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
+            incrtri = data - data.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
             incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
-- 
2.43.0


From e72c9aed20c158bb1049a16b578ff9ff358faa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 11/26] fix: bootstrap forecasts for triangles whose first
 development period is not 1

The first incremental amount of every origin was taken as 0.
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 7cb4064..3b470e0 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -598,7 +598,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From dc357000284ce371ff33cda61783f44de0a4a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 12/26] fix: resample cells with a negative fitted increment

The square root of a negative fitted value is NaN, which dropped the cell from
every resampled triangle. Residuals are scaled by sqrt(|m|).
---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3b470e0..de905a3 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -488,7 +488,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From 19f651afb64e942ca7eb4859c622e548cb9876f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 13/26] fix: accept numpy integers as boot_cl random_state

They raised UnboundLocalError.
---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index de905a3..a8b0d41 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -464,7 +464,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
@@ -654,7 +654,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         """
         # Initialize pseudo random number generator.
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
-- 
2.43.0


From d7ab970ff784ce7c5582f9176cf7a3ba7857c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 14/26] fix: residuals_detail with scipy >= 1.11

stats.mode returns a scalar for one-dimensional input, so indexing it raised
IndexError.
---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index a8b0d41..0d68484 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -944,7 +944,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -957,7 +957,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From e1175d0a2cfb6e3939e3442dca7e8348162cf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 15/26] fix: MackChainLadderResult.plot draws the estimated
 reserve distributions

It read the point estimate exhibit data, which has no x and y columns.
---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 4e270ce..16e42ba 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -903,7 +903,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
-- 
2.43.0


From 16bfa65e047685c776ae495d3a7f6aeedd25913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 16/26] fix: BootstrapChainLadderResult.plot raised TypeError

_qtls_formatter of the result has no two_sided argument, and groupby quantile
takes interpolation, not method.
---
 trikit/estimators/bootstrap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 0d68484..e943873 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1070,11 +1070,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
             dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+                "quantile", q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
             dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+                "quantile", q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
@@ -1200,7 +1200,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        qtls, qtlhdrs = self._qtls_formatter(q=q, two_sided=True)
+        qtls, qtlhdrs = self._qtls_formatter(q=[(1 - q) / 2, (1 + q) / 2])
         data = self._bs_data_transform(qtls, qtlhdrs).dropna(how="any", subset=["loss"])
 
         with sns.axes_style(axes_style):
-- 
2.43.0


From a3d44a1f55d6a548ab52652ce51b14bf86ab9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 17/26] fix: MackChainLadderResult.diagnostics raised KeyError
 on the development column

---
 trikit/estimators/mack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 16e42ba..0633cc4 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -1015,7 +1015,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1034,8 +1034,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From d08b3b0d5dc0215af5946cbfe93c67047e985807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 18/26] fix: residual standard deviation of Mack diagnostics
 divides by n - 1

It divided by n and then subtracted 1 from the variance.
---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0633cc4..b3f90e3 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -568,7 +568,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -590,7 +590,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
-- 
2.43.0


From f62057d0e86b40378e2af4586af901520c363ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 19/26] fix: label the 11th, 12th and 13th percentiles as such
 in get_quantiles

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 63484a6..f0e4c00 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -680,7 +680,8 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii in ("11", "12", "13") else ii + self.dsuffix[ii[-1]]
+                for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From cbf9da1e403bf69d2631eda7462850941c1c1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 20/26] fix: BaseChainLadderResult.plot draws actuals and
 forecasts

Nothing was mapped onto the grid, so every facet was empty.
---
 trikit/estimators/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index f0e4c00..c3c87a1 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -536,6 +536,7 @@ class BaseChainLadderResult:
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From 0a2d6a0f0264a3e08d68acd4eea49181b175f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 21/26] fix: faceted triangle plot raised ValueError for
 amounts of 1,000 or more

The facets share their y axis, so later facets read back tick labels that
already carry thousands separators.
---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index eb5debe..89590cd 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1082,7 +1082,7 @@ class CumTriangle(_BaseCumTriangle):
                 ax_ = g.axes[ii]
 
                 ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
+                ylabelsn = [float(jj.replace(u"\u2212", "-").replace(",", "")) for jj in ylabelss]
                 ylabelsn = [jj for jj in ylabelsn if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
-- 
2.43.0


From bc744b15248e7e2c770e69dfd2f12de3c5c4c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 22/26] fix: lognormal reserve distribution for reserves below
 1

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index b3f90e3..8beb561 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -187,7 +187,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From 43dfe73b627685dbb1a562762b9a1819238e903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 23/26] fix: Mack standard errors for alpha 0 and 2

The process error of Mack's model is C**(2 - alpha) * sigma**2 and the
covariance term of the total divides by the alpha-weighted sum; both used
alpha=1 for every alpha.
---
 trikit/estimators/mack.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 8beb561..6a0708e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -121,7 +121,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -164,15 +164,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
@@ -333,7 +330,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -350,6 +347,11 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            * 0: Straight average of observed individual link ratios.
+            * 1: Historical Chain Ladder age-to-age factors.
+            * 2: Regression of :math:`C_{k+1}` on :math:`C_{k}` with 0 intercept.
+
         Returns
         -------
         pd.DataFrame
@@ -375,10 +377,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 2f95af9010215dd77a1efa6458a4afda0af0d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 24/26] fix: calendar year test raised ValueError for unevenly
 spaced labels

---
 trikit/estimators/mack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 6a0708e..79ae665 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -748,8 +748,6 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From 7acb87e3587d7230d58127c8b25ddb8c3762014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 25/26] fix: the chain ladder plots raised ValueError for
 amounts up to 1, above 1e10 or equal to a power of ten

---
 trikit/estimators/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index c3c87a1..ab407a3 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -345,12 +345,10 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
-        x_div = ref_divs[div_index]
+        x_div = 10.0**np.floor(np.log10(x)) if x > 0 else 1.0
 
         # Find upper limit for y-axis given origin_max_val.
-        yuls_seq = x_div * np.arange(1, 11)
+        yuls_seq = x_div * np.arange(1, 12)
         x_yuls = yuls_seq - x
         yul = yuls_seq[np.where(x_yuls > 0)[0].min()]
         y_ticks = np.linspace(0, yul, num=5)
-- 
2.43.0


From dda433c14ed612a8fe38bc23e5d29ecc3c794bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 26/26] fix: BootstrapChainLadderResult.hist added a column to
 the result's reserve_dist

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index e943873..333de27 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1328,7 +1328,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy()
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0

