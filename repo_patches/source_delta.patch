From ee6122c62af64b6ef93d029133ada74f909b6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 01/52] fix: find the maximum posterior row by position, not by
 index label

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..586aab3 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From 759840147cb4df919dd68195e1e39fa9280887aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 02/52] fix: shift_params only shifts parameters, never weights
 or log posterior

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 586aab3..ce24fca 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 414a0bb19c2a55450d7b2f06154e2db2a15c4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 03/52] fix: covariance and correlation of a single column are
 1x1 matrices

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ce24fca..f6386a8 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -379,7 +379,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From 911f9d52bd719c91c08060d0f2a2e46179e73bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 04/52] fix: padding in the max summary carries no probability
 mass

---
 src/chainconsumer/analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..a11f6b7 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -653,8 +653,7 @@ class Analysis:
         y_end = np.linspace(ys[-1], 0, n_pad)
         xs = np.concatenate((x_start, xs, x_end))
         ys = np.concatenate((y_start, ys, y_end))
-        cs = ys.cumsum()
-        cs = cs / cs.max()
+        cs = np.concatenate((np.zeros(n_pad), cs, np.ones(n_pad)))
         start_index = ys.argmax()
         max_val = ys[start_index]
         min_val = 0
-- 
2.43.0


From 85ce12ee5767f0b684493f607593ae84fd7e87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 05/52] fix: quantile summaries do not crash when a quantile
 lies in the outermost bin

---
 src/chainconsumer/analysis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index a11f6b7..f9b655a 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -496,14 +496,14 @@ class Analysis:
     def get_parameter_summary_mean(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = np.interp(vals, cs, xs)
         bounds[1] = 0.5 * (bounds[0] + bounds[2])
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_cumulative(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = np.interp(vals, cs, xs)
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_hdi(self, chain: Chain, column: ColumnName) -> Bound:
@@ -687,12 +687,11 @@ class Analysis:
     def get_parameter_summary_max_central(self, chain, parameter):
         xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
 
-        c_to_x = interp1d(cs, xs)
         max_index = ys.argmax()
         x = xs[max_index]
 
         vals = [0.5 - 0.5 * chain.summary_area, 0.5 + 0.5 * chain.summary_area]
-        xvals = c_to_x(vals)
+        xvals = np.interp(vals, cs, xs)
 
         return Bound(lower=xvals[0], center=x, upper=xvals[1])
 
-- 
2.43.0


From c7d5d8746689ba6c539d28879a1d56134ad88bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 06/52] fix: HDI density threshold tolerance is relative to the
 peak density

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index f9b655a..4d03c1d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -599,7 +599,7 @@ class Analysis:
             bracket=(0.0, float(np.max(density))),
             args=(density, xs, chain.summary_area),
             method="bisect",
-            xtol=5e-4,
+            xtol=1e-6 * float(np.max(density)),
         )
 
         threshold = sol.root
-- 
2.43.0


From bf01190dd4f26b8b441958b3a95ae233f6549cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 07/52] fix: HDI width tolerance is relative to the extent of
 the parameter

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 4d03c1d..a775173 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -527,6 +527,7 @@ class Analysis:
         x_points = np.concatenate(([xs[0]], xs))
 
         eps = 1e-12
+        width_eps = eps * float(x_points[-1] - x_points[0])
         best_width = float("inf")
         best_lower = float(x_points[0])
         best_upper = float(x_points[-1])
@@ -554,10 +555,10 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= width_eps:
                 continue
 
-            if width < best_width - eps:
+            if width < best_width - width_eps:
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 87306394c4324b4384dd57d3648d0b28f9556e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 08/52] fix: size of the 1D KDE grid does not depend on the
 parameter value

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index a775173..a75bc10 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From ed1fa2a479033b5a46392381a7d21e5ed48960a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 09/52] fix: apply the chain power to 1D KDE marginals

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index a75bc10..145020f 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -350,6 +350,8 @@ class Analysis:
             kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
+            if chain.power is not None:
+                ys = ys**chain.power
             area = simps(ys, x=kde_xs)
             ys = ys / area
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
-- 
2.43.0


From a3e60518a1a033b09bb4a33fd9f8f90e96528386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 10/52] fix: the kde setting scales the bandwidth in contours
 and plot_dist

---
 src/chainconsumer/helpers.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..1ee516c 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, truncation=1.0, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..b7e2940 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -93,7 +93,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
-- 
2.43.0


From a79daf906c563d975b4aa574405767103e5b9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 11/52] fix: the colour alias e refers to an existing colour

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..f347568 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From 28c45db65f8aa57551c6126999ad93049e468467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 12/52] fix: scale_colour returns a valid colour for hex codes
 it cannot scale

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index f347568..c874694 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -110,7 +110,7 @@ class Colors:
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
         hexx = self.format(color).strip("#")
         if scalefactor < 0 or len(hexx) != 6:
-            return hexx
+            return self.format(color)
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
         r = self._clamp(int(r * scalefactor))
         g = self._clamp(int(g * scalefactor))
-- 
2.43.0


From 405dfc43be11197a9140e840cb81b167e923783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 13/52] fix: do not run out of default colours with many chains

---
 src/chainconsumer/chainconsumer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..1b6b674 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 from typing import Any
 
 import numpy as np
@@ -161,7 +162,7 @@ class ChainConsumer:
         global_config["shade"] = num_chains < 5
         global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
 
-        color_iter = colors.next_colour()
+        color_iter = cycle(colors.next_colour())
 
         for _, chain in final_chains.items():
             # copy global config into local config
-- 
2.43.0


From 7be1b023005203336670eb5fdb4dac57f2ae6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 14/52] fix: accept a pandas Series as truth location

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From ef91efb4b25ad1b99b658d1e2514d30b7b544559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 15/52] fix: make_sample is reproducible for a given seed

---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index b299e7d..d10a9ae 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points)
+    samples = norm.rvs(size=num_points, random_state=gen)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From abc88bccd8e2e797e39dde56b362608c00cc0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 16/52] fix: empty var_names includes all parameters, as
 documented

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index f6386a8..3dcb5fd 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -500,7 +500,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From 890a5d38b860f38b09371d120a4a5f4147936dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 17/52] fix: parameter text handles a degenerate zero bound and
 an empty list of bounds

---
 src/chainconsumer/analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 145020f..0ff710d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -404,7 +404,7 @@ class Analysis:
             no finite limits.
         """
 
-        if bound is None:
+        if bound is None or (isinstance(bound, Sequence) and len(bound) == 0):
             return ""
 
         # Fallback to single bound behavior if there is only one mode identified
@@ -452,8 +452,10 @@ class Analysis:
             resolution = np.floor(np.log10(np.abs(lower_error)))
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
-        else:
+        elif bound.center != 0:
             resolution = np.floor(np.log10(np.abs(bound.center)))
+        else:
+            resolution = 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From 3445459649c90d4ba940eea6c003b20ab93b9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 18/52] fix: percent signs in table captions and labels are
 kept

---
 src/chainconsumer/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 1ee516c..7bb388f 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,7 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From 0f50398ea0faa2fe43a1fbc863ae3ae9f1ec390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 19/52] fix: comparison table column specification matches its
 columns

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..131fdad 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,7 +179,7 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
+        num_cols = (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
         column_text = "c" * (num_cols + 1)
         center_text = ""
         hline_text = "\\hline\n"
-- 
2.43.0


From 6d50cef34f9b1c3a90ba19a92035762da5746b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 20/52] fix: plot_summary sets the height of each parameter
 axis, not its neighbour

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..fe27510 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -672,7 +672,7 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
                 if not errorbar:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
-- 
2.43.0


From 3fd2939e6dd3acf8bc5962c7c8ba57f0cb28ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 21/52] fix: plot_distributions draws truths on the parameter
 axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index fe27510..d5fbdb8 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From 3cdb1096ace0e1f808e41d1a0f46d08af848c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 22/52] fix: plot_distributions uses the configured labels

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index d5fbdb8..34a97c0 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -523,7 +523,7 @@ class Plotter:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From bb1a6eda0ecaacfa87a07bbe705436961d7c322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 23/52] fix: plot_distributions does not crash when no contour
 chain has a parameter

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 34a97c0..0d38bcb 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -522,7 +522,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if np.isfinite(max_val):
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From 89f2aa6aaef28d4a579556a973d265ad99babbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 24/52] fix: blinded parameters show no minor ticks, log ticks
 or colorbar ticks

---
 src/chainconsumer/plotter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 0d38bcb..97ae515 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -242,6 +242,9 @@ class Plotter:
                 elif label == "posterior":
                     label = "log(Posterior)"
                 cbar.set_label(label, fontsize=self.config.label_font_size)
+                if self.config.blind is True or column in base.blind:
+                    cbar.set_ticks([])
+                    cbar.minorticks_off()
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
 
@@ -391,6 +394,7 @@ class Plotter:
 
                 if p in base.blind:
                     ax.set_yticks([])
+                    ax.set_yticks([], minor=True)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -500,6 +504,7 @@ class Plotter:
                 ax.set_xscale("log")
             if p in base.blind:
                 ax.set_xticks([])
+                ax.set_xticks([], minor=True)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -638,12 +643,13 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
+                if p in base.log_scales:
+                    ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
+                    ax.set_xticks([], minor=True)
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
-                if p in base.log_scales:
-                    ax.set_xscale("log")
 
                 # Put title in
                 if i == 0:
@@ -859,6 +865,7 @@ class Plotter:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_xticks([])
+                        ax.set_xticks([], minor=True)
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -870,6 +877,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
+                        ax.set_yticks([], minor=True)
                     if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 5c106f4f73b6411ce5743613063937b94cb55058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 25/52] fix: plot_walks shows the whole of the longest chain

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 97ae515..2f0f80d 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1040,7 +1040,7 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-- 
2.43.0


From d18d314dfb8268fd9de5031ec9b000c8e8dcbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 26/52] fix: flip only affects plots with two columns and
 histograms

---
 src/chainconsumer/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 2f0f80d..f3ca851 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -778,12 +778,13 @@ class Plotter:
         if not self.config.plot_hists:
             n -= 1
 
+        flip = n == 2 and self.config.plot_hists and self.config.flip
         spacing = self.config.spacing
         if spacing is None:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -823,7 +824,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -836,7 +837,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -878,7 +879,7 @@ class Plotter:
                     else:
                         ax.set_yticks([])
                         ax.set_yticks([], minor=True)
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From 3500fd40418d4dbeab03939024666e7e5c7d5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 27/52] fix: clip multimodal bands to the plotted histogram

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f3ca851..da84945 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -987,7 +987,8 @@ class Plotter:
                 else:
                     display_bounds = base_bound
                     intervals = [(display_bounds.lower, display_bounds.upper)]
-                    intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+
+                intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
-- 
2.43.0


From e0ca1649705caa82dab6b41ff3437298e17a92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 28/52] fix: extents of single-valued data have a finite width

---
 src/chainconsumer/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 7bb388f..f9ecd45 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -32,6 +32,9 @@ def get_extents(
     i2 = np.where(icdf > threshold)[0][0]
     lower = float(bc[i1])
     upper = float(bc[-i2])
+    if lower >= upper:
+        # Everything is in a single bin, so use its edges
+        lower, upper = float(be[i1]), float(be[i1 + 1])
     if pad:
         width = upper - lower
         lower -= 0.2 * width
-- 
2.43.0


From ac63114683588b26d32fda59ea16b5108940d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 29/52] fix: HDI bands of the full probability mass do not
 crash

---
 src/chainconsumer/analysis.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 0ff710d..8fcc9a3 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -599,15 +599,19 @@ class Analysis:
         area = simps(ys, x=xs)
         density = ys / area
 
-        sol = root_scalar(
-            mass_diff,
-            bracket=(0.0, float(np.max(density))),
-            args=(density, xs, chain.summary_area),
-            method="bisect",
-            xtol=1e-6 * float(np.max(density)),
-        )
+        peak = float(np.max(density))
+        if mass_diff(0.0, density, xs, chain.summary_area) <= 0:
+            threshold = 0.0  # Everything is needed to reach the target
+        else:
+            sol = root_scalar(
+                mass_diff,
+                bracket=(0.0, peak),
+                args=(density, xs, chain.summary_area),
+                method="bisect",
+                xtol=1e-6 * peak,
+            )
+            threshold = sol.root
 
-        threshold = sol.root
         mask = density >= threshold
 
         intervals = _mask_to_intervals(xs, mask)
-- 
2.43.0


From 7b7c4c8f30142d58ef71ea085c0f93fd94bc6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 30/52] fix: HDI bands of a flat-topped distribution do not
 crash

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8fcc9a3..86c9407 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -602,6 +602,8 @@ class Analysis:
         peak = float(np.max(density))
         if mass_diff(0.0, density, xs, chain.summary_area) <= 0:
             threshold = 0.0  # Everything is needed to reach the target
+        elif mass_diff(peak, density, xs, chain.summary_area) >= 0:
+            threshold = peak  # The top of the distribution is flat, and is enough on its own
         else:
             sol = root_scalar(
                 mass_diff,
-- 
2.43.0


From 3fb0fdd3b2fd09dd4952905094f415ad7d8cb452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 31/52] fix: no negative zero in parameter text

---
 src/chainconsumer/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 86c9407..3746522 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -467,6 +467,7 @@ class Analysis:
             r = 0
         if resolution == 1:
             fmt = "%0.0f"
+            r = 0
         if resolution == -1:
             fmt = "%0.2f"
             r = 2
-- 
2.43.0


From 43ccb4d84cb3cad7784e2fa635b55a25c7d16598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 32/52] fix: 2D contours do not depend on the scale of the
 weights

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index b7e2940..ceb01d2 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -202,7 +202,7 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     ]
 
     hist, x_centers, y_centers = get_smoothed_histogram2d(chain, px, py)
-    hist[hist == 0] = 1e-16
+    hist[hist == 0] = 1e-16 * hist.max()
     vals = _convert_to_stdev(hist)
 
     if chain.shade and chain.shade_alpha > 0:
-- 
2.43.0


From d3986682a4bdbda9057dc227c87aafcca380f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 33/52] fix: KDE densities of plot_dist are normalised

---
 src/chainconsumer/plotting/contours.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index ceb01d2..7b30691 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -1,6 +1,7 @@
 import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
+from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter
 from scipy.stats import norm
@@ -98,6 +99,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
                 ys = ys**chain.power
+            ys = ys / simpson(ys, x=xs)
         else:
             # Smoothed histogram
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-- 
2.43.0


From b44568e553a6a369f718c88e2e3926a9de200e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 34/52] fix: plot_dist summaries use the configured label and
 accept LaTeX names

---
 src/chainconsumer/plotting/contours.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 7b30691..31b865a 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -175,7 +175,9 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
         if summary and fit_values is not None:
             parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
 
-            text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
+            label = config.get_label(px).strip("$")
+
+            text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
 
             ax.set_title(text, fontsize=config.summary_font_size, pad=10)
 
-- 
2.43.0


From 6a0e560da725509fc6190abe76e4a0b09d19f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 35/52] fix: legend of a chain of points accepts any line style

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index da84945..d143c23 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -88,7 +88,7 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
                     (0, 1),
                     (0, 0),
                     color=colors.format(chain.color),
-                    ls=chain.linestyle,
+                    ls="none",
                     lw=0,
                     marker=chain.marker_style,
                     markersize=np.sqrt(chain.marker_size),
-- 
2.43.0


From 2f330a12d3b7bb5c7bba8a8ba234007c07b598e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 36/52] fix: a moving average wider than a chain, or of width
 one, in plot_walks

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index d143c23..9d917b2 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1054,12 +1054,13 @@ class Plotter:
         else:
             ax.yaxis.set_major_locator(MaxNLocator(max_ticks, prune="lower"))
 
-        if convolve is not None:
+        if convolve is not None and convolve <= data.size:
             trim = int(0.5 * convolve)
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim:-trim], filtered[trim:-trim], color=color2, alpha=1)
+            stop = data.size - trim
+            ax.plot(x[trim:stop], filtered[trim:stop], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From 3a29d6f125f03008926750fac91717aae2485f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 37/52] fix: dividing a shifted chain keeps the samples of each
 walker

---
 src/chainconsumer/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 3dcb5fd..e34ef9d 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -347,7 +347,8 @@ class Chain(ChainConfig):
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-            options = self.model_dump(exclude={"samples", "name", "walkers"})
+            # The samples have been shifted already, and another shift would hide differences between the walkers
+            options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
-- 
2.43.0


From 595f0c25ed45100261920eed7233f4def290f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 38/52] fix: get_summary accepts chain names and dictionaries,
 as documented

---
 src/chainconsumer/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 3746522..88ea1fb 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -187,7 +187,7 @@ class Analysis:
 
     def get_summary(
         self,
-        chains: list[Chain] | None = None,
+        chains: dict[ChainName, Chain] | list[ChainName | Chain] | None = None,
         columns: list[ColumnName] | None = None,
     ) -> dict[ChainName, dict[ColumnName, Bound]]:
         """Gets a summary of the marginalised parameter distributions.
@@ -202,6 +202,10 @@ class Analysis:
         results = {}
         if chains is None:
             chains = self.parent.plotter._sanitise_chains(None, include_skip=True)
+        else:
+            final_chains = self.parent._get_final_chains()
+            chains = list(chains.values()) if isinstance(chains, dict) else chains
+            chains = [final_chains[c] if isinstance(c, ChainName) else c for c in chains]
         if columns is None:
             columns = self.parent.plotter._sanitise_columns(None, chains)
 
-- 
2.43.0


From 5c3dbae04c91df3e7da94425fb75e965732d369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 39/52] fix: get_summary applies overrides to chains of the
 collection given as objects

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 88ea1fb..3b7e55b 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -205,7 +205,9 @@ class Analysis:
         else:
             final_chains = self.parent._get_final_chains()
             chains = list(chains.values()) if isinstance(chains, dict) else chains
+            # Chains of the collection have their override applied, others are used as they are
             chains = [final_chains[c] if isinstance(c, ChainName) else c for c in chains]
+            chains = [final_chains[c.name] if self.parent._chains.get(c.name) is c else c for c in chains]
         if columns is None:
             columns = self.parent.plotter._sanitise_columns(None, chains)
 
-- 
2.43.0


From 6db00a3f8258767cd31fe81698f1574995c1a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 40/52] fix: multimodal bands do not stop short of a level that
 many grid points share

---
 src/chainconsumer/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 3b7e55b..c616824 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -612,14 +612,18 @@ class Analysis:
         elif mass_diff(peak, density, xs, chain.summary_area) >= 0:
             threshold = peak  # The top of the distribution is flat, and is enough on its own
         else:
+            xtol = 1e-6 * peak
             sol = root_scalar(
                 mass_diff,
                 bracket=(0.0, peak),
                 args=(density, xs, chain.summary_area),
                 method="bisect",
-                xtol=1e-6 * peak,
+                xtol=xtol,
             )
             threshold = sol.root
+            if mass_diff(threshold, density, xs, chain.summary_area) < 0:
+                # Equal densities enter together, so do not stop just short of a level that many share
+                threshold = max(0.0, threshold - 2 * xtol)
 
         mask = density >= threshold
 
-- 
2.43.0


From 444ce15213407a46bd747bf137b54c43bb85e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 41/52] fix: multimodal bands outside of the plotted histogram
 do not raise

---
 src/chainconsumer/plotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 9d917b2..f3ca050 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -989,6 +989,8 @@ class Plotter:
                     intervals = [(display_bounds.lower, display_bounds.upper)]
 
                 intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+                # A band can lie in the tail outside of the plotted histogram
+                intervals = [(lower, upper) for lower, upper in intervals if lower <= upper]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
-- 
2.43.0


From 276a1182a36c04802d524709d7145e6357851228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 42/52] fix: automatic shading counts the contours that the
 override leaves or adds

---
 src/chainconsumer/chainconsumer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 1b6b674..76dc1a8 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -152,7 +152,11 @@ class ChainConsumer:
     def _get_final_chains(self) -> dict[ChainName, Chain]:
         # Copy the original chain list
         final_chains = {k: v.model_copy() for k, v in self._chains.items()}
-        num_chains = len([x for x in self._chains.values() if x.plot_contour])
+        override: dict[str, Any] = {}
+        if self._global_chain_override is not None:
+            override = self._global_chain_override.get_user_specified_dump()
+        # What is drawn depends on the override too. There may be no contours at all
+        num_chains = max(1, len([x for x in self._chains.values() if override.get("plot_contour", x.plot_contour)]))
 
         # Note we only have to override things without a default
         # and things which should change as the number of chains change
@@ -169,7 +173,7 @@ class ChainConsumer:
             local_config = global_config.copy()
 
             # Reduce shade alpha if we're showing contour labels
-            if chain.show_contour_labels:
+            if override.get("show_contour_labels", chain.show_contour_labels):
                 local_config["shade_alpha"] *= 0.5
 
             # Check to see if the color is set
@@ -179,8 +183,7 @@ class ChainConsumer:
             chain._apply_if_not_user_set(**local_config)
 
             # Apply user overrides
-            if self._global_chain_override is not None:
-                chain._apply(**self._global_chain_override.get_user_specified_dump())
+            chain._apply(**override)
 
         return final_chains
 
-- 
2.43.0


From cadbbeba658cfa8b13e8014452a305fe6b8a9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 43/52] fix: plot_dist shades and states every band of a
 multimodal chain

---
 src/chainconsumer/plotting/contours.py | 32 +++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 31b865a..d41c5ab 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -146,16 +146,24 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
         analysis = Analysis(None)  # type: ignore
         fit_values = analysis.get_parameter_summary(chain, px)
+        bounds = [] if fit_values is None else [fit_values]
+        if chain.multimodal:
+            intervals = analysis.get_parameter_hdi_intervals(chain, px)
+            # If there is a single interval, it is the summary
+            if len(intervals) >= 2:
+                bounds = analysis.get_parameter_multimodal_bounds(chain, px, intervals)
 
         # Add shading for confidence interval (e.g., 1-sigma) if requested
-        if chain.shade and chain.shade_alpha > 0 and fit_values is not None:
-            lower = fit_values.lower
-            upper = fit_values.upper
-            if lower is not None and upper is not None:
-                interp_type = "linear" if chain.smooth_value else "nearest"
-                interpolator = interp1d(xs, ys, kind=interp_type)
-                lower = max(lower, xs.min())
-                upper = min(upper, xs.max())
+        if chain.shade and chain.shade_alpha > 0:
+            interp_type = "linear" if chain.smooth_value else "nearest"
+            interpolator = interp1d(xs, ys, kind=interp_type)
+            for bound in bounds:
+                if bound.lower is None or bound.upper is None:
+                    continue
+                lower = max(bound.lower, xs.min())
+                upper = min(bound.upper, xs.max())
+                if lower > upper:
+                    continue
                 x = np.linspace(lower, upper, 1000)
 
                 # Use shade_gradient to control the opacity of the confidence interval shading
@@ -173,11 +181,13 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
         # Add parameter summary text above the plot if requested
         if summary and fit_values is not None:
-            parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
-
             label = config.get_label(px).strip("$")
 
-            text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
+            if len(bounds) > 1:
+                text = analysis.get_parameter_text(bounds, wrap=True, label=label)
+            else:
+                parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
+                text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
 
             ax.set_title(text, fontsize=config.summary_font_size, pad=10)
 
-- 
2.43.0


From 1fc19ece559dd9b1107dab3ab6e0e5291582b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 44/52] fix: plot_dist does not state the summary of a blinded
 parameter

---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index d41c5ab..d2c0571 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -180,7 +180,8 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                 )
 
         # Add parameter summary text above the plot if requested
-        if summary and fit_values is not None:
+        blinded = config.blind if isinstance(config.blind, bool) else px in config.blind
+        if summary and not blinded and fit_values is not None:
             label = config.get_label(px).strip("$")
 
             if len(bounds) > 1:
-- 
2.43.0


From e8838cde495b0e8cd0db2d4a854da5e6cc8dc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 45/52] fix: titles keep labels of which only parts are maths

---
 src/chainconsumer/analysis.py          | 8 ++++++--
 src/chainconsumer/plotter.py           | 3 +--
 src/chainconsumer/plotting/config.py   | 6 ++++++
 src/chainconsumer/plotting/contours.py | 5 +++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index c616824..6e10f1d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -403,7 +403,8 @@ class Analysis:
                 Wrap each formatted expression in LaTeX dollar signs.
             label:
                 Optional parameter label to prepend. For multimodal results the
-                label is placed on its own line.
+                label is placed on its own line. A label that contains dollar signs
+                is kept as it is.
 
         Returns:
             The formatted string. Returns an empty string when the input contains
@@ -424,7 +425,7 @@ class Analysis:
 
             lines: list[str] = []
             if label:
-                lines.append(f"${label}$" if wrap else label)
+                lines.append(f"${label}$" if wrap and "$" not in label else label)
 
             for index, sub_bound in enumerate(bounds, start=1):
                 entry = Analysis._format_single_bound(sub_bound, use_pm=False)
@@ -442,6 +443,9 @@ class Analysis:
         text = self._format_single_bound(bound, use_pm=True)
 
         if label:
+            if wrap and "$" in label:
+                # Only parts of the label are maths
+                return f"{label} = ${text}$"
             text = f"{label} = {text}"
 
         if wrap:
diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f3ca050..9d9d811 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1016,8 +1016,7 @@ class Plotter:
                         )
 
                 if summary:
-                    label = self.config.get_label(column)
-                    label_text = label.strip("$") if isinstance(column, str) else None
+                    label_text = self.config.get_math_label(column) if isinstance(column, str) else None
 
                     title = self.parent.analysis.get_parameter_text(
                         display_bounds,
diff --git a/src/chainconsumer/plotting/config.py b/src/chainconsumer/plotting/config.py
index fc8faca..2f1e942 100644
--- a/src/chainconsumer/plotting/config.py
+++ b/src/chainconsumer/plotting/config.py
@@ -74,3 +74,9 @@ class PlotConfig(BetterBase):
 
     def get_label(self, column: ColumnName) -> str:
         return self.labels.get(column, column)
+
+    def get_math_label(self, column: ColumnName) -> str:
+        """The label to use in maths: without dollar signs around it, unless only parts of it are maths."""
+        label = self.get_label(column)
+        stripped = label.strip("$")
+        return label if "$" in stripped else stripped
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index d2c0571..cdc417a 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -182,13 +182,14 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
         # Add parameter summary text above the plot if requested
         blinded = config.blind if isinstance(config.blind, bool) else px in config.blind
         if summary and not blinded and fit_values is not None:
-            label = config.get_label(px).strip("$")
+            label = config.get_math_label(px)
 
             if len(bounds) > 1:
                 text = analysis.get_parameter_text(bounds, wrap=True, label=label)
             else:
                 parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
-                text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
+                text = parameter_text or f"{fit_values.center}"
+                text = rf"{label} = ${text}$" if "$" in label else rf"${label} = {text}$"
 
             ax.set_title(text, fontsize=config.summary_font_size, pad=10)
 
-- 
2.43.0


From 4adcca388770881607abb6207b44536bf48f76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 46/52] fix: statistics follow an overridden multimodal unless
 given explicitly

---
 src/chainconsumer/chainconsumer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 76dc1a8..c8da0c4 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -10,6 +10,7 @@ from .color_finder import ColorInput, colors
 from .comparisons import Comparison
 from .diagnostic import Diagnostic
 from .plotter import PlotConfig, Plotter
+from .statistics import SummaryStatistic
 from .truth import Truth
 
 __all__ = ["ChainConsumer"]
@@ -185,6 +186,10 @@ class ChainConsumer:
             # Apply user overrides
             chain._apply(**override)
 
+            # The statistic was inferred from multimodal, unless the user has picked one
+            if "multimodal" in override and "statistics" not in override.keys() | chain._user_specified:
+                chain.statistics = SummaryStatistic.HDI if chain.multimodal else SummaryStatistic.MAX
+
         return final_chains
 
     def get_chain(self, name: str) -> Chain:
-- 
2.43.0


From 9f590414ed99e226c30d37e889718bb6ecc0c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 47/52] fix: tables show every column that is asked for

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 6e10f1d..ca9c04d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -134,7 +134,7 @@ class Analysis:
         final_columns = [c for c in final_columns if c not in blind]
         num_chains = len(final_chains)
         num_parameters = len(final_columns)
-        fit_values = self.get_summary(chains=final_chains)
+        fit_values = self.get_summary(chains=final_chains, columns=final_columns)
         if label is None:
             label = ""
         if caption is None:
-- 
2.43.0


From 791218f43de2782d5f0f66e41fb11818a9ad9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 48/52] fix: text of bands leaves out those with only some
 limits

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index ca9c04d..d184570 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -419,7 +419,7 @@ class Analysis:
             bound = bound[0]
 
         if isinstance(bound, Sequence) and not isinstance(bound, Bound):
-            bounds = [b for b in bound if isinstance(b, Bound) and not b.all_none]
+            bounds = [b for b in bound if isinstance(b, Bound) and None not in (b.lower, b.center, b.upper)]
             if not bounds:
                 return ""
 
-- 
2.43.0


From 25dfab7303c926493d2819a47d4a5a68ff26e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 49/52] fix: weights and posteriors of a chain are not
 parameters where another chain has a parameter of their name

---
 src/chainconsumer/analysis.py | 2 +-
 src/chainconsumer/plotter.py  | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index d184570..afc1c2a 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -215,7 +215,7 @@ class Analysis:
             res = {}
             params_to_find = columns if columns is not None else chain.data_columns
             for p in params_to_find:
-                if p not in chain.samples:
+                if p not in chain.data_columns:
                     continue
                 summary = self.get_parameter_summary(chain, p)
                 res[p] = summary
diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 9d9d811..03fd616 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -203,7 +203,7 @@ class Plotter:
 
                     # Plot each chain
                     for chain in base.chains:
-                        if not chain.plot_contour or p1 not in chain.samples:
+                        if not chain.plot_contour or p1 not in chain.data_columns:
                             continue
 
                         do_summary = summarise and p1 not in base.blind
@@ -889,10 +889,9 @@ class Plotter:
         self, column: ColumnName, chains: list[Chain], wide_extents: bool = True
     ) -> tuple[float, float]:
         min_val, max_val = np.inf, -np.inf
-        for chain in chains:
-            if column not in chain.samples:
-                continue  # pragma: no cover
-
+        # The weight or posterior column of one chain may be called as a parameter of another
+        chains_with_parameter = [c for c in chains if column in c.data_columns]
+        for chain in chains_with_parameter or [c for c in chains if column in c.samples]:
             data = chain.get_data(column)
             min_prop, max_prop = np.inf, -np.inf
             if chain.plot_contour or chain.plot_cloud:
-- 
2.43.0


From 98c471bc3bb4f8d567fb2c2c79c95062ba7c3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 50/52] fix: parts of a divided chain get the automatic
 settings that the chain would get

---
 src/chainconsumer/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index e34ef9d..cdfecfb 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -352,6 +352,8 @@ class Chain(ChainConfig):
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
+            # Only what the user has set stays that way, the rest is still to be chosen automatically
+            chain._user_specified = self._user_specified - {"color"}
             chains.append(chain)
 
         return chains
-- 
2.43.0


From 485b867acc00fb8d5b870589284cf9c0a206e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 51/52] fix: the power of a density is normalised in histograms
 too

---
 src/chainconsumer/analysis.py          | 5 ++---
 src/chainconsumer/helpers.py           | 8 ++++++++
 src/chainconsumer/plotter.py           | 5 ++---
 src/chainconsumer/plotting/contours.py | 8 +++-----
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index afc1c2a..99850e1 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -14,7 +14,7 @@ from scipy.optimize import root_scalar
 
 from .base import BetterBase
 from .chain import Chain, ChainName, ColumnName, MaxPosterior, Named2DMatrix
-from .helpers import get_bins, get_grid_bins, get_latex_table_frame, get_smoothed_bins
+from .helpers import get_bins, get_grid_bins, get_latex_table_frame, get_smoothed_bins, raise_density
 from .kde import MegKDE
 from .statistics import SummaryStatistic
 
@@ -342,8 +342,7 @@ class Analysis:
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=pad)
 
         hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-        if chain.power is not None:
-            hist = hist**chain.power
+        hist = raise_density(hist, edges, chain.power)
         edge_centers = 0.5 * (edges[1:] + edges[:-1])
         xs = np.linspace(edge_centers[0], edge_centers[-1], 10000)
 
diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index f9ecd45..eb90ad6 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -126,6 +126,14 @@ def get_smoothed_histogram2d(
     return hist, x_centers, y_centers
 
 
+def raise_density(hist: np.ndarray, edges: np.ndarray, power: float | None) -> np.ndarray:
+    """The density of a histogram to a power, normalised again."""
+    if power is None or power == 1:
+        return hist
+    hist = (hist / hist.max()) ** power
+    return hist / np.sum(hist * np.diff(edges))
+
+
 def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
     bin_c = np.sort(np.unique(data))
     delta = 0.5 * (bin_c[1] - bin_c[0])
diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 03fd616..02f6706 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -23,7 +23,7 @@ from chainconsumer.truth import Truth
 from .base import BetterBase
 from .chain import Chain, ChainName, ColumnName
 from .color_finder import colors
-from .helpers import get_bins, get_extents, get_grid_bins, get_smoothed_bins
+from .helpers import get_bins, get_extents, get_grid_bins, get_smoothed_bins, raise_density
 from .plotting import add_watermark, plot_surface
 from .plotting.config import PlotConfig
 
@@ -948,8 +948,7 @@ class Plotter:
             else:
                 bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights)
             hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-            if chain.power is not None:
-                hist = hist**chain.power
+            hist = raise_density(hist, edges, chain.power)
             edge_center = 0.5 * (edges[:-1] + edges[1:])
             xs, ys = edge_center, hist
             ys *= chain.histogram_relative_height
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index cdc417a..e917bd1 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -77,7 +77,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
         summary: If True, add parameter summary text above the plot
     """
 
-    from ..helpers import get_bins, get_grid_bins, get_smoothed_bins
+    from ..helpers import get_bins, get_grid_bins, get_smoothed_bins, raise_density
 
     if config is None:
         config = PlotConfig()
@@ -104,8 +104,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             # Smoothed histogram
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
             hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-            if chain.power is not None:
-                hist = hist**chain.power
+            hist = raise_density(hist, edges, chain.power)
             hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
             xs = 0.5 * (edges[:-1] + edges[1:])
             ys = hist
@@ -120,8 +119,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights)
 
         hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-        if chain.power is not None:
-            hist = hist**chain.power
+        hist = raise_density(hist, edges, chain.power)
 
         edge_center = 0.5 * (edges[:-1] + edges[1:])
         xs, ys = edge_center, hist
-- 
2.43.0


From fa745f3e1a280650f5b81bfa0d6c4f13f5c0f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 52/52] fix: each element of a vector variable gets its own
 column when translating numpyro and arviz

---
 src/chainconsumer/chain.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index cdfecfb..44aea41 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -450,9 +450,7 @@ class Chain(ChainConfig):
         """
 
         var_names = _filter_var_names(var_names, list(mcmc.get_samples().keys()))
-        df = pd.DataFrame.from_dict(
-            {key: np.ravel(value) for key, value in mcmc.get_samples().items() if key in var_names}
-        )
+        df = _to_frame({key: value for key, value in mcmc.get_samples().items() if key in var_names})
         return cls(samples=df, name=name, **kwargs)
 
     @classmethod
@@ -479,8 +477,8 @@ class Chain(ChainConfig):
         import arviz as az
 
         var_names = _filter_var_names(var_names, list(arviz_id.posterior.keys()))  # type: ignore
-        reduced_id = az.extract(arviz_id, var_names=var_names, group="posterior")
-        df = reduced_id.to_dataframe().drop(columns=["chain", "draw"], errors="ignore")
+        reduced_id = az.extract(arviz_id, var_names=var_names, group="posterior", keep_dataset=True)
+        df = _to_frame({key: value.transpose("sample", ...) for key, value in reduced_id.data_vars.items()})
 
         return cls(samples=df, name=name, **kwargs)
 
@@ -498,6 +496,23 @@ class MaxPosterior(BetterBase):
         return np.array(list(self.coordinate.values()))
 
 
+def _to_frame(variables: dict[str, Any]) -> pd.DataFrame:
+    """
+    Helper function to turn draws of variables into a dataframe. The first axis of each variable runs over the draws,
+    and each element of a variable with more axes gets its own column.
+    """
+    columns = {}
+    for name, draws in variables.items():
+        values = np.asarray(draws)
+        flat = values.reshape(values.shape[0], -1)
+        if flat.shape[1] == 1:
+            columns[name] = flat[:, 0]
+        else:
+            for i, index in enumerate(np.ndindex(values.shape[1:])):
+                columns[f"{name}[{','.join(map(str, index))}]"] = flat[:, i]
+    return pd.DataFrame(columns)
+
+
 def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[str]:
     """
     Helper function to return the var_names to allows filtering parameters names.
-- 
2.43.0

