From 959b3c89d41484e52fed5e4e99240cbd6c6508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 01/56] fix: convert histogram weights to float before squaring
 them

Small integer weights overflowed in the sum of squared weights and weights
given as tuples raised a TypeError.
---
 templatefitter/histograms/hist1d.py | 3 +--
 templatefitter/histograms/hist2d.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..559bff0 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -51,8 +51,7 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += binned_statistic(
             data,
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..e7ca1af 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -41,8 +41,7 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += binned_statistic_2d(
             x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
-- 
2.43.0


From 55b54bb355959867826bc2cedb6d4b0e839095cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 02/56] fix: keep own float copies of binned data and bin edges
 in histograms

from_binned_data kept references to the caller's arrays (filling the
histogram afterwards changed them, and integer counts could not be filled)
and bin edges given as a list broke bin_mids and bin_widths.
---
 templatefitter/histograms/hist1d.py | 6 +++---
 templatefitter/histograms/hist2d.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 559bff0..fdb5aa6 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,7 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights):
@@ -89,12 +89,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index e7ca1af..ca14935 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,7 +35,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._range = tuple(map(get_bin_range, bins))
 
     def fill(self, data, weights=None):
@@ -74,12 +74,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From 50062a250e7e8dcce515ed15cc3e37a273024ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 03/56] fix: allow filling a Hist2d with an empty dataset

Without an explicit range scipy derives one from the data, which raises a
ValueError for an empty sample; Hist1d already passes its range.
---
 templatefitter/histograms/hist2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index ca14935..1f92a2c 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -44,7 +44,12 @@ class Hist2d(AbstractHist):
         weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         self._bin_errors_sq += binned_statistic_2d(
@@ -53,6 +58,7 @@ class Hist2d(AbstractHist):
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
         self._is_empty = False
 
-- 
2.43.0


From 8fcf4c2c1f92ceb1c0154259e63293ca3f52e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 04/56] fix: calculate the covariance matrix in
 Template2d.add_variation

The up and down histograms were passed to _add_cov_mat, which takes one
matrix, so every call raised a TypeError.
---
 templatefitter/templates/template2d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..eb10785 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -56,8 +57,10 @@ class Template2d(AbstractTemplate):
         hdown = Hist2d(
             bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
         )
-
-        self._add_cov_mat(hup, hdown)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From b47ee04f85d9664dde327fbe20dfe7f2e5d5471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 05/56] fix: bin systematic variations with the bin edges of
 the template

add_variation used equal-width bins over the template range, which gives a
wrong covariance matrix for templates with variable bin widths.
---
 templatefitter/templates/template1d.py | 4 ++--
 templatefitter/templates/template2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index eb10785..7eeb01e 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -52,10 +52,10 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
-- 
2.43.0


From 95f41d5b62a46e17a928fe1709fedbadddba8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 06/56] fix: return zero bin fractions for empty templates
 instead of nan

---
 templatefitter/templates/abstract_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..0cb15e9 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,7 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
-    return per_bin_yields / np.sum(per_bin_yields)
+    total_yield = np.sum(per_bin_yields)
+    if total_yield == 0:
+        return np.zeros_like(per_bin_yields)
+    return per_bin_yields / total_yield
-- 
2.43.0


From b32bebc3ac58cc5df1d4095586d5084be3b0e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 07/56] fix: reset the template yield to the original bin
 counts

The yield was taken from the live histogram, so filling the histogram after
the template had been created changed the value reset() restores, while the
bin fractions kept their original values.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 0cb15e9..f1bb98c 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From a45c7e5c751a8ffc614063e46a8a0d9604302b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 08/56] fix: copy the array given to the template params setter

The template shared the array with the caller, so later parameter updates
changed it (and truncated values when it held integers).
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index f1bb98c..53e3d3e 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From bdd1d982f91a346fb585fd798725ffec021b2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 09/56] fix: do not cache channel properties that change with
 its templates

Process indices, efficiencies and the inverse correlation matrix were cached
per channel, so templates or variations added after the first likelihood
evaluation were silently ignored or broke the evaluation.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From f6f530a95e87d8e8b4755ca7648eeb03fc88d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 10/56] fix: reject templates and data with different bin edges
 in a channel

Only the number of bins and the range were compared, so histograms with the
same range but different inner edges were combined bin by bin.
---
 templatefitter/templates/channel.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..8099055 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -494,9 +494,25 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = self._range == template.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = self._range == hist.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(hist.bin_edges)
+
+    def _check_bin_edges(self, bin_edges):
+        """Checks whether given bin edges agree with the bin edges of the
+        templates or the data already added to this channel.
+        """
+        if self._template_dict:
+            expected_edges = self.bin_edges
+        elif self._hdata is not None:
+            expected_edges = self._hdata.bin_edges
+        else:
+            return True
+
+        if len(self._bins) == 1:
+            return np.allclose(bin_edges, expected_edges)
+
+        return all(map(np.allclose, bin_edges, expected_edges))
-- 
2.43.0


From fea6e18e23eb341d023f1bfc24fd49492a201425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 11/56] fix: count a redefined yield constraint only once

Constraining a process a second time replaced the value but added the
process again, so the new constraint entered the likelihood twice.
---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From 9575776593e4eede9d69b3da4fc60c967eb655d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 12/56] fix: fix every requested parameter in ScipyMinimizer

The constraint functions all referred to the loop variable, so with two or
more fixed parameters only the last one was fixed and SLSQP failed with a
singular matrix; fixing one parameter twice failed in the same way.
---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..2bfa0cc 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -435,11 +435,11 @@ class ScipyMinimizer(AbstractMinimizer):
         """
         constraints = list()
 
-        for fixed_param in self._fixed_params:
+        for fixed_param in sorted(set(self._fixed_params)):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From 4a1d45c0cf17c98b52ba57675d8100694e01a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 13/56] fix: exclude fixed parameters from the covariance in
 ScipyMinimizer

The Hesse matrix of all parameters was inverted, so the errors of the free
parameters included the uncertainty of the fixed ones.
---
 templatefitter/minimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 2bfa0cc..3ad7cf4 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -387,7 +387,13 @@ class ScipyMinimizer(AbstractMinimizer):
 
         if get_hesse:
             hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
-            self._params.covariance = np.linalg.inv(hesse)
+            free = [
+                i for i in range(self._params.num_params) if i not in self._fixed_params
+            ]
+            self._params.covariance = np.zeros_like(hesse)
+            self._params.covariance[np.ix_(free, free)] = np.linalg.inv(
+                hesse[np.ix_(free, free)]
+            )
             self._params.correlation = cov2corr(self._params.covariance)
             self._params.errors = np.sqrt(np.diag(self._params.covariance))
 
-- 
2.43.0


From e622008d96d4f66d747f2584f0e0c566202f77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 14/56] fix: use nonzero initial step sizes in IMinuitMinimizer

Parameters starting at zero, that is all nuissance parameters of a new model,
got a step size of zero, and Minuit then reported valid minima far away from
the minimum of the likelihood.
---
 templatefitter/minimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 3ad7cf4..3b0b9fe 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -279,10 +279,14 @@ class IMinuitMinimizer(AbstractMinimizer):
 
     def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
 
+        # the initial step size of a free parameter must not vanish
+        initial_steps = np.maximum(0.05 * np.abs(initial_params), 0.1)
+        initial_steps[self._fixed_params] = 0.0
+
         m = Minuit.from_array_func(
             self._fcn,
             initial_params,
-            error=0.05 * initial_params,
+            error=initial_steps,
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-- 
2.43.0


From 41e8971339a40b8a2cea91e9d01d6e04040c8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 15/56] fix: keep the shape of the IMinuitMinimizer covariance
 for fixed parameters

Rows and columns of fixed parameters were dropped, so the matrix no longer
matched the parameter names and could not be propagated to the bin counts.
---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 3b0b9fe..1f07eb9 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -301,8 +301,8 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 35fed6b506b8debc4eebd5725e5775e11dfe6a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 16/56] fix: calculate the Hesse matrix in IMinuitMinimizer

The covariance was MIGRAD's running estimate, which can be wrong by large
factors, e.g. if the minimization starts close to the minimum.
---
 templatefitter/minimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 1f07eb9..fb9e697 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -277,7 +277,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         super().__init__(fcn, param_names)
         self._fixed_params = [False for _ in self.params.names]
 
-    def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
+    def minimize(
+        self, initial_params, verbose=1, errordef=0.5, get_hesse=True, **kwargs
+    ):
 
         # the initial step size of a free parameter must not vanish
         initial_steps = np.maximum(0.05 * np.abs(initial_params), 0.1)
@@ -298,6 +300,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        if get_hesse and not all(self._fixed_params):
+            m.hesse()
+
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
-- 
2.43.0


From b646413f136beb389b55984bd462ab0c27c29923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 17/56] fix: continue the SLSQP minimization until it has
 converged

SLSQP reports success at the first step that changes the likelihood by less
than its tolerance, which left fits up to half a unit above the minimum.
---
 templatefitter/minimizer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index fb9e697..a1fcd9a 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -380,6 +380,27 @@ class ScipyMinimizer(AbstractMinimizer):
             options={"disp": verbose},
         )
 
+        # SLSQP stops at the first step which hardly changes the objective
+        # function. Restart it from there until this yields no improvement.
+        for _ in range(10):
+            if not opt_result.success:
+                break
+            restarted = minimize(
+                fun=self._fcn,
+                x0=opt_result.x,
+                args=additional_args,
+                method="SLSQP",
+                bounds=self._param_bounds,
+                constraints=constraints,
+                options={"maxiter": 1000, "ftol": 1e-10},
+            )
+            improvement = opt_result.fun - restarted.fun
+            if not restarted.success or not improvement > 0:
+                break
+            opt_result = restarted
+            if improvement < 1e-6:
+                break
+
         self._success = opt_result.success
         self._status = opt_result.status
         self._message = opt_result.message
-- 
2.43.0


From 1855386138487891b48cfbbf0afb3fe3e38d18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 18/56] fix: keep fixed parameters fixed in the profile scan

The scan released all parameters before fixing the scanned one, so with
fix_nui_params the nuissance parameters were fixed in the nominal
minimization but free in the profile.
---
 templatefitter/fitter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..6ba2cf6 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -270,7 +270,6 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
-- 
2.43.0


From 3a61c809c24738e39e639891dda45b71333904e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 19/56] fix: respect fixed and bound parameters in
 TemplateFitter.profile

set_parameter_fixed and set_parameter_bounds had no effect on the profile.
---
 templatefitter/fitter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 6ba2cf6..04d85af 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,13 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+
+        for fixed_param_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_param_id)
+
+        for bound_param_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_param_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
-- 
2.43.0


From d80bad308e50432c6ecb4f16fa3a4d9c440366b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 20/56] fix: make TemplateFitter.fix_nui_params fix the
 nuissance parameters

The flag it sets was never read.
---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 04d85af..8e21bdb 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -333,7 +333,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -358,7 +358,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From 80bb4a0d02236a203f2cd83e4f2ba04296987bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 21/56] fix: do not change the templates in get_significance

The yield of the tested template was left at zero.
---
 templatefitter/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 8e21bdb..10e68b5 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -352,7 +352,8 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        initial_values = self._nll.x0
+        initial_values[self._templates.process_to_index(process_id)] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -372,7 +373,7 @@ class TemplateFitter:
 
         minimizer.set_param_fixed(process_id + "_yield")
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From caf209107feeb98c78bd4dabd5cb43eca7013bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 22/56] fix: return zero instead of nan for a vanishing
 significance

Numerical noise of the two minimizations can make q0 slightly negative.
---
 templatefitter/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 10e68b5..237e058 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -377,4 +377,4 @@ class TemplateFitter:
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-        return np.sqrt(q0)
+        return np.sqrt(max(q0, 0))
-- 
2.43.0


From 5f693720bca75a589bb96a9b4310dcb90b29ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 23/56] fix: calculate p-values with the chi2 survival function

The numerical integration of the pdf misses its peak for many degrees of
freedom and returned a p-value of about zero where it should be close to one.
---
 templatefitter/stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..4cd86e3 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,5 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -11,7 +10,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -52,7 +51,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -92,5 +91,5 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
         p-value.
     """
     chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 2c4ab6ec32c3424cc9c3d950c4bdcb3eb9c8580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 24/56] fix: handle empty data bins in
 cowan_binned_likelihood_gof

An empty bin contributed 0*log(0), so the test statistic was nan.
---
 templatefitter/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index 4cd86e3..ba67832 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,8 @@
 import numpy as np
 from scipy.stats import chi2
 
+from templatefitter.utility import xlogyx
+
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 
@@ -90,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 58122e58043f60557df25d44f55328810e5b8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 25/56] fix: scale with standard deviations in corr2cov

The documented variance vector was used as if it held standard deviations,
so corr2cov was not the inverse of cov2corr.
---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From 1f77e987e13a9eae6d18b6cba10d3153878554de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 26/56] fix: handle empty data bins in
 StackedTemplateNegLogLikelihood

The xlogyx copy in this module returned inf for empty data bins, which made
the negative log likelihood -inf; use the one from the utility module.
---
 templatefitter/nll.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..05bc262 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -10,6 +10,8 @@ import numpy as np
 
 from scipy.linalg import block_diag
 
+from templatefitter.utility import xlogyx
+
 import warnings
 
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
@@ -156,10 +158,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
             nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
-
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From d5d2baa0142731ee857ab3f1cd340b0dc5875901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 27/56] fix: call values() when plotting a legacy template

---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..79b5836 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
-- 
2.43.0


From 60f719e3a1cc37c3867b9245df6fc8ebc3d329f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 28/56] fix: return the correlation matrix of a legacy template

The property called itself until the recursion limit was reached.
---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 79b5836..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 299baccbec03da614193b314b435961aebdd10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 29/56] fix: use the small relative error for empty legacy
 histogram bins

Empty bins gave 0/0, so the check for vanishing errors never matched them.
---
 templatefitter/histogram_legacy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..930c908 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -134,7 +134,12 @@ class Histogram:
     @property
     def bin_rel_errors(self):
         """np.ndarray. Current relative bin errors in each bin."""
-        rel_errors = np.sqrt(self._bin_errors_sq) / self.bin_counts
+        rel_errors = np.divide(
+            np.sqrt(self._bin_errors_sq),
+            self.bin_counts,
+            out=np.zeros(self.nbins),
+            where=self.bin_counts != 0,
+        )
         rel_errors[rel_errors == 0] = 1e-7
         return rel_errors
 
-- 
2.43.0


From 420a930bbbaf5c0e0b8891c196a9b37e3d574724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 30/56] fix: get the colormap from pyplot in Template2d.plot_on

matplotlib.cm.get_cmap has been removed from matplotlib.
---
 templatefitter/templates/template2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7eeb01e..d6f4405 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -3,7 +3,6 @@ from functools import reduce
 from itertools import product
 
 import matplotlib.pyplot as plt
-from matplotlib import cm
 from matplotlib.colors import ListedColormap, LinearSegmentedColormap
 import numpy as np
 
@@ -71,7 +70,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From ad5031da8def7ff91ad550e26e60f45dc7a9f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 31/56] fix: plot stacked templates without an explicit color

The default template color None is not accepted in the list of colors, so
stacked plots failed unless every template had been given a color.
---
 templatefitter/templates/channel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 8099055..6a1bbab 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -216,7 +216,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -286,7 +289,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
-- 
2.43.0


From ae11f18cd94587ebde52b0a90159c647745b1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 32/56] fix: add no data at all if one of the given datasets is
 rejected

---
 templatefitter/templates/channel.py                | 12 +++++++++---
 templatefitter/templates/multi_channel_template.py |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6a1bbab..f49e039 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -139,9 +139,15 @@ class Channel:
             AbstractHist).
         """
 
-        if self._check_hist(hdata):
-            self._hdata = hdata
-        else:
+        self.check_data(hdata)
+        self._hdata = hdata
+
+    def check_data(self, hdata):
+        """Raises a RuntimeError if the given data histogram is not
+        compatible with this channel.
+        """
+
+        if not self._check_hist(hdata):
             raise RuntimeError(
                 "Given data histogram is not compatible with the Channel."
             )
diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..192d390 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -171,6 +171,9 @@ class MultiChannelTemplate:
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
 
+            self.channels[channel].check_data(hdata)
+
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From 9f32d362bfb0f0c090fa6007a2781e7b1f24a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 33/56] fix: report no profile value where the minimization was
 not successful

---
 templatefitter/fitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 237e058..5d00dc7 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -290,6 +290,11 @@ class TemplateFitter:
             )
             return np.nan
 
+        # not every minimizer raises an error if it does not find the minimum
+        if not loop_result.succes:
+            logging.info(f"Minimization with point {point} was not successful.")
+            return np.nan
+
         return loop_result.fcn_min_val
 
     # TODO this is not yet generic, depens on param name in the likelihood
-- 
2.43.0


From a7a2234c1dfa064de42debe67c78dc81ab5aba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 34/56] fix: propagate uncertainties of channels with a single
 bin

---
 templatefitter/templates/channel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index f49e039..6e6638d 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -191,7 +191,14 @@ class Channel:
             yields, nui_params = self.split_parameter_array(param_values)
             return self._expected_evts_per_bin(yields, nui_params)
 
-        jac = nd.Jacobian(exp_bin_counts)(result_params.values)
+        if self.num_bins == 1:
+            # nd.Jacobian cannot handle functions with one component
+            jac = np.atleast_2d(
+                nd.Gradient(lambda p: exp_bin_counts(p)[0])(result_params.values)
+            )
+        else:
+            jac = nd.Jacobian(exp_bin_counts)(result_params.values)
+
         bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
 
         return bin_by_bin_cov
-- 
2.43.0


From 7779750ce51bb68183b4dd753b35e6485fa3e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 35/56] fix: do not share binned data and edges of legacy
 histograms with the caller

Sequences of bin edges are converted to arrays, as documented, and the counts
and errors given to from_binned_data are copied, so that filling the histogram
neither changes the arrays of the caller nor fails for integer counts.
---
 templatefitter/histogram_legacy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 930c908..8286dee 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -251,7 +251,7 @@ class Hist1d(AbstractHist):
             self._limits = limits
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
 
         self._bin_counts = np.zeros(self._num_bins)
@@ -278,12 +278,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
         return instance
 
@@ -335,7 +335,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = [len(edges) - 1 for edges in bins]
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._limits = [np.array([np.amin(edges), np.amax(edges)]) for edges in bins]
 
         self._bin_counts = np.zeros(self._num_bins)
-- 
2.43.0


From b322f319fd435389205ba63a1c8a11b3d6576640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 36/56] fix: square the weights of legacy histograms as floats

Squares of small integer types overflowed and boolean weights failed.
---
 templatefitter/histogram_legacy.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 8286dee..b9b34d5 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -53,11 +53,9 @@ class Histogram:
         """
         if isinstance(data, list):
             data = np.array(data)
-        if weights is not None and isinstance(weights, list):
-            weights = np.array(weights)
-
         if weights is None:
             weights = np.ones_like(data)
+        weights = np.asarray(weights, dtype=float)
 
         if len(data) != len(weights):
             raise ValueError(
@@ -300,8 +298,7 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic(
             data,
@@ -347,8 +344,7 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[:, 0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic_2d(
             x=data[:, 0],
-- 
2.43.0


From 5775f71ec4bfa050497f33a2625c3bfe45ba218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 37/56] fix: allow filling a legacy Histogram with an empty
 dataset

---
 templatefitter/histogram_legacy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index b9b34d5..d941cae 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -61,15 +61,18 @@ class Histogram:
             raise ValueError(
                 "Shape of data array does not match weight array.")
         self._bin_counts += scipy.stats.binned_statistic(
-            x=data, values=weights, statistic="sum", bins=self._bin_edges
+            x=data, values=weights, statistic="sum", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
         self._bin_entries += scipy.stats.binned_statistic(
-            x=data, values=weights, statistic="count", bins=self._bin_edges
+            x=data, values=weights, statistic="count", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
         self._bin_errors_sq += scipy.stats.binned_statistic(
-            x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges
+            x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges,
+            range=self._limits
         )[0]
 
     def scale(self, c):
-- 
2.43.0


From 9b15d6e30715745c797e35fe59bfcb5929a5ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 38/56] fix: provide bin mids and widths of legacy Hist2d per
 axis

---
 templatefitter/histogram_legacy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d941cae..ad41f45 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -370,6 +370,16 @@ class Hist2d(AbstractHist):
         self.x_projection.cache_clear()
         self.y_projection.cache_clear()
 
+    @property
+    def bin_mids(self):
+        """list of numpy.ndarray: Bin mids per axis."""
+        return [(edges[1:] + edges[:-1]) / 2 for edges in self.bin_edges]
+
+    @property
+    def bin_width(self):
+        """list of float: Bin width per axis."""
+        return [edges[1] - edges[0] for edges in self.bin_edges]
+
     @property
     def xlimits(self):
         return self._limits[0]
-- 
2.43.0


From 19e9cacaa3b50a29198071a86dba8a77f9e35836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 39/56] fix: fractions of legacy templates without entries are
 zero

---
 templatefitter/templates_legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..4226bcb 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -251,7 +251,10 @@ class Template(AbstractTemplate):
         """
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
-        return per_bin_yields / np.sum(per_bin_yields)
+        total_yield = np.sum(per_bin_yields)
+        if total_yield == 0:
+            return np.zeros(self.num_bins)
+        return per_bin_yields / total_yield
 
     def plot_on(self, ax, **kwargs):
         ax.hist(
-- 
2.43.0


From c58c7fe31479c773bd7e988e512a8351afe1fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 40/56] fix: copy the nuisance parameters given to a legacy
 StackedTemplate

They were views of the given array, which changed the templates when it was
reused, and assigning the values that were read before gave arrays of the
wrong shape.
---
 templatefitter/templates_legacy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4226bcb..880f60a 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -699,8 +699,8 @@ class StackedTemplate(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        for template, values in zip(self._template_dict.values(),
-                                    np.split(new_values, self.num_templates)):
+        new_values = np.array(new_values, dtype=float).reshape(self.num_templates, -1)
+        for template, values in zip(self._template_dict.values(), new_values):
             template.nui_param_values = values
 
     @property
@@ -714,8 +714,8 @@ class StackedTemplate(AbstractTemplate):
 
     @nui_param_errors.setter
     def nui_param_errors(self, new_errors):
-        for template, errors in zip(self._template_dict.values(),
-                                    np.split(new_errors, self.num_templates)):
+        new_errors = np.array(new_errors, dtype=float).reshape(self.num_templates, -1)
+        for template, errors in zip(self._template_dict.values(), new_errors):
             template.nui_params_errors = errors
 
     @property
-- 
2.43.0


From ed67914c9660c7dcc3b57df907f4a63b43f8a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 41/56] fix: toy data of channels with a single bin keep the
 shape of the channel

poisson.rvs returns a scalar for expectations with a single entry unless the
size is given.
---
 templatefitter/templates/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6e6638d..fb4ca2e 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -396,7 +396,9 @@ class Channel:
         template_bin_counts = sum(
             [template.values for template in self.templates.values()]
         )
-        toy_bin_counts = poisson.rvs(template_bin_counts)
+        toy_bin_counts = poisson.rvs(
+            template_bin_counts, size=template_bin_counts.shape
+        )
 
         return self._htype.from_binned_data(
             toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
-- 
2.43.0


From a1f6d51872f87cd3a6e4b225f9cb65362935329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 42/56] fix: toy data of legacy templates with a single bin
 keep their shape

---
 templatefitter/templates_legacy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 880f60a..8da2a97 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -309,7 +309,9 @@ class Template(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins
+        )
         return Hist1d.from_binned_data(self._hist.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
@@ -592,7 +594,9 @@ class StackedTemplate(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(
+            self.values(), size=self.num_bins
+        )
         return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
-- 
2.43.0


From 14ca882d977a38523fc61849cc805e7c79551702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 43/56] fix: the likelihood is infinite where data are expected
 to be negative

---
 templatefitter/nll.py               | 5 +++++
 templatefitter/templates/channel.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index 05bc262..7403bc7 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -150,6 +150,11 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
         exp_evts_per_bin = poi @ self._templates.fractions(nuiss_params)
 
+        # events are impossible where a negative number of them is expected,
+        # minimizers cannot handle a likelihood which is not a number there
+        if np.any(exp_evts_per_bin[self._d > 0] < 0):
+            return np.inf
+
         # this poisson term is taken from Blobel
         poisson_term = np.sum(exp_evts_per_bin - self._d -
                               xlogyx(self._d, exp_evts_per_bin))
diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index fb4ca2e..f2e04dd 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -387,6 +387,12 @@ class Channel:
         """
         data = self._hdata.bin_counts.flatten()
         exp_evts_per_bin = self._expected_evts_per_bin(process_yields, nui_params)
+
+        # events are impossible where a negative number of them is expected,
+        # minimizers cannot handle a likelihood which is not a number there
+        if np.any(exp_evts_per_bin[data > 0] < 0):
+            return np.inf
+
         poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))
         gauss_term = self._gauss_term(nui_params)
 
-- 
2.43.0


From 626748c93bb1e0566cf124eec92c834c6bda1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 44/56] fix: results of a minimizer keep their numbers when it
 is used again

---
 templatefitter/minimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index a1fcd9a..48ab3ce 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -303,6 +303,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         if get_hesse and not all(self._fixed_params):
             m.hesse()
 
+        # earlier results have to keep their parameters
+        self._params = Parameters(self.params.names)
+
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
@@ -412,6 +415,10 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
+        # earlier results have to keep their parameters, and uncertainties of
+        # an earlier minimization do not belong to this one
+        self._params = Parameters(self.params.names)
+
         self._params.values = opt_result.x
         self._fcn_min_val = opt_result.fun
 
-- 
2.43.0


From 28d9f84b26c0cd622556880165681bc6ddc021b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 45/56] fix: the legacy likelihood uses the current
 correlations of the templates

---
 templatefitter/nll.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index 7403bc7..fbe63bf 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -112,8 +112,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
     def __init__(self, binned_dataset, templates):
         super().__init__(binned_dataset, templates)
-        self._block_diag_inv_corr_mats = block_diag(
-            *self._templates.inv_corr_mats)
 
     @property
     def x0(self):
@@ -160,6 +158,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
                               xlogyx(self._d, exp_evts_per_bin))
 
         gauss_term = 0.5 * (
-            nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
+            nuiss_params @ block_diag(*self._templates.inv_corr_mats) @ nuiss_params)
 
         return poisson_term + gauss_term
-- 
2.43.0


From 41cb3f803f52bd5b9847346b59296b05e0ef908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 46/56] fix: legacy templates kept references to the parameter
 arrays given to them

---
 templatefitter/templates_legacy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 8da2a97..26eb336 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -6,6 +6,7 @@ import logging
 
 from abc import ABC, abstractmethod
 from collections import OrderedDict
+from copy import copy
 from functools import lru_cache
 from typing import Tuple, List
 
@@ -31,14 +32,14 @@ class TemplateParameter:
 
     def __init__(self, value, error, name):
         self.value = value
-        self._original_value = value
+        self._original_value = copy(value)
         self.error = error
-        self._original_error = error
+        self._original_error = copy(error)
         self.name = name
 
     def reset(self):
-        self.value = self._original_value
-        self.error = self._original_error
+        self.value = copy(self._original_value)
+        self.error = copy(self._original_error)
 
 
 class AbstractTemplate(ABC):
@@ -358,7 +359,7 @@ class Template(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        self._param_nui.value = new_values
+        self._param_nui.value = np.array(new_values, dtype=float)
 
     @property
     def nui_params_errors(self):
@@ -368,7 +369,7 @@ class Template(AbstractTemplate):
 
     @nui_params_errors.setter
     def nui_params_errors(self, new_errors):
-        self._param_nui.error = new_errors
+        self._param_nui.error = np.array(new_errors, dtype=float)
 
     @property
     def cov_mat(self):
-- 
2.43.0


From b20b6dbfe332015479e74b009668ca95c9b6c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 47/56] fix: bin edges are compared on the scale of the bin
 widths

---
 templatefitter/templates/channel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index f2e04dd..1c4b278 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -540,6 +540,12 @@ class Channel:
             return True
 
         if len(self._bins) == 1:
-            return np.allclose(bin_edges, expected_edges)
+            return self._edges_agree(bin_edges, expected_edges)
 
-        return all(map(np.allclose, bin_edges, expected_edges))
+        return all(map(self._edges_agree, bin_edges, expected_edges))
+
+    @staticmethod
+    def _edges_agree(bin_edges, expected_edges):
+        """Edges may differ by rounding errors, judged by the bin widths."""
+        tolerance = 1e-6 * np.min(np.abs(np.diff(expected_edges)))
+        return np.allclose(bin_edges, expected_edges, rtol=1e-12, atol=tolerance)
-- 
2.43.0


From aa34f18457c073f7049f2404f384289206e12565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 48/56] fix: fill a 1d histogram without weights

The weights are documented as optional with None as default.
---
 templatefitter/histograms/hist1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index fdb5aa6..ad64282 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
-- 
2.43.0


From ab7d99822a3b5595a8984f16350c4eb46aef09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:34 +0000
Subject: [PATCH 49/56] fix: apply the bounds set last for a parameter

Bounds set by name, then by index and then by name again were applied in
the order of the first call.
---
 templatefitter/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 5d00dc7..95706b3 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -134,6 +134,8 @@ class TemplateFitter:
             Lower and upper boundaries for this parameter.
         """
 
+        # the last bounds set for a parameter count, by name or index
+        self._bound_parameters.pop(param_id, None)
         self._bound_parameters[param_id] = bounds
 
     @staticmethod
-- 
2.43.0


From 98728628d810b6eb29933513425f05a0e2836407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 50/56] fix: default errors of binned data in double precision

---
 templatefitter/histogram_legacy.py  | 2 +-
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index ad41f45..264ff9e 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -282,7 +282,7 @@ class Hist1d(AbstractHist):
         instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index ad64282..f135295 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -92,7 +92,7 @@ class Hist1d(AbstractHist):
         instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
         instance._is_empty = False
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 1f92a2c..ea39d7e 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -83,7 +83,7 @@ class Hist2d(AbstractHist):
         instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
-- 
2.43.0


From 4f28cdb56e3087ba22235e06d83f92e3c4ff67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:30 +0000
Subject: [PATCH 51/56] fix: bounds of a fixed parameter moved it (profile
 points and zero yields out of bounds were not evaluated there)

---
 templatefitter/minimizer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 48ab3ce..822f366 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -230,6 +230,15 @@ class AbstractMinimizer(ABC):
         param_index = self.params.param_id_to_index(param_id)
         self._param_bounds[param_index] = bounds
 
+    def _free_param_bounds(self, fixed_indices):
+        """Returns the parameter boundaries without those of fixed
+        parameters, which keep their value even if it's out of bounds.
+        """
+        return [
+            (None, None) if i in fixed_indices else bounds
+            for i, bounds in enumerate(self._param_bounds)
+        ]
+
     @property
     def fcn_min_val(self):
         """str: Value of the objective function at it's estimated minimum."""
@@ -292,7 +301,7 @@ class IMinuitMinimizer(AbstractMinimizer):
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-            limit=self._param_bounds,
+            limit=self._free_param_bounds(np.flatnonzero(self._fixed_params)),
             print_level=verbose,
         )
 
@@ -372,13 +381,14 @@ class ScipyMinimizer(AbstractMinimizer):
         MinimizeResult
         """
         constraints = self._create_constraints(initial_param_values)
+        bounds = self._free_param_bounds(self._fixed_params)
 
         opt_result = minimize(
             fun=self._fcn,
             x0=initial_param_values,
             args=additional_args,
             method="SLSQP",
-            bounds=self._param_bounds,
+            bounds=bounds,
             constraints=constraints,
             options={"disp": verbose},
         )
@@ -393,7 +403,7 @@ class ScipyMinimizer(AbstractMinimizer):
                 x0=opt_result.x,
                 args=additional_args,
                 method="SLSQP",
-                bounds=self._param_bounds,
+                bounds=bounds,
                 constraints=constraints,
                 options={"maxiter": 1000, "ftol": 1e-10},
             )
-- 
2.43.0


From a3631bd7dfbc0dd284a3aba1adb2a85933be9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:12 +0000
Subject: [PATCH 52/56] fix: iminuit errors of bounded parameters were not the
 square roots of the variances

---
 templatefitter/minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 822f366..b20f2cd 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -317,8 +317,8 @@ class IMinuitMinimizer(AbstractMinimizer):
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-        self._params.errors = m.np_errors()
         self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.errors = np.sqrt(np.diag(self._params.covariance))
         self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
-- 
2.43.0


From 725e35dbe312a8c347a9e4408f989f34d99c8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:54 +0000
Subject: [PATCH 53/56] fix: SLSQP reported success at its start where the
 gradient is large

---
 templatefitter/minimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index b20f2cd..9780eae 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -398,15 +398,19 @@ class ScipyMinimizer(AbstractMinimizer):
         for _ in range(10):
             if not opt_result.success:
                 break
+            # SLSQP does not move at all if the gradient is too large
+            scale = max(1.0, np.max(np.abs(opt_result.jac)))
             restarted = minimize(
-                fun=self._fcn,
+                fun=lambda x, *args: self._fcn(x, *args) / scale,
                 x0=opt_result.x,
                 args=additional_args,
                 method="SLSQP",
                 bounds=bounds,
                 constraints=constraints,
-                options={"maxiter": 1000, "ftol": 1e-10},
+                options={"maxiter": 1000, "ftol": 1e-10 / scale},
             )
+            restarted.fun = self._fcn(restarted.x, *additional_args)
+            restarted.jac = restarted.jac * scale
             improvement = opt_result.fun - restarted.fun
             if not restarted.success or not improvement > 0:
                 break
-- 
2.43.0


From d74306dac626319af32e2941d4ddd13a568be6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:31 +0000
Subject: [PATCH 54/56] fix: iminuit reported success where repeating the
 minimization still found lower values

---
 templatefitter/minimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 9780eae..9debe44 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -305,9 +305,15 @@ class IMinuitMinimizer(AbstractMinimizer):
             print_level=verbose,
         )
 
-        # perform minimization twice!
-        fmin, _ = m.migrad(ncall=20000)
+        # perform minimization twice, and again as long as this finds a lower
+        # minimum!
         fmin, _ = m.migrad(ncall=20000)
+        for _ in range(10):
+            last_fval = m.fval
+            fmin, _ = m.migrad(ncall=20000)
+            if not last_fval - m.fval > 1e-3 * errordef:
+                break
+            m.hesse()
 
         if get_hesse and not all(self._fixed_params):
             m.hesse()
-- 
2.43.0


From 76d2fc22d2b8d60434b08236b7ba3f44a7c5397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:54 +0000
Subject: [PATCH 55/56] fix: systematic covariances of small or unsigned
 integer histograms overflowed

---
 templatefitter/utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index f5d3739..274ceb1 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -119,6 +119,9 @@ def get_systematic_cov_mat(hnom, hup, hdown):
     Covariance Matrix : numpy.ndarray
         Shape is (`num_bins`, `num_bins`).
     """
+    # differences of integer types may overflow
+    hnom, hup, hdown = (np.asarray(h, dtype=float) for h in (hnom, hup, hdown))
+
     sign = np.ones_like(hup)
     mask = hup < hdown
     sign[mask] = -1
-- 
2.43.0


From e3bd82ee18046c64e7f0f98ac288afe2b9ddb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:01 +0000
Subject: [PATCH 56/56] fix: goodness-of-fit statistics of integer data and
 expectations overflowed

---
 templatefitter/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ba67832..6683631 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -10,7 +10,13 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 #
 
 
+def _as_floats(*arrays):
+    # differences and squares of integer types may overflow
+    return tuple(np.asarray(array, dtype=float) for array in arrays)
+
+
 def default_chi2_test(data, expectation, uncertainty, dof):
+    data, expectation, uncertainty = _as_floats(data, expectation, uncertainty)
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
@@ -52,6 +58,7 @@ def pearson_chi2_test(data, expectation, dof):
     float
         p-value.
     """
+    data, expectation = _as_floats(data, expectation)
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
@@ -92,6 +99,7 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
+    data, expectation = _as_floats(data, expectation)
     chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0

