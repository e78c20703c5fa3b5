From 465e54e28996872518252fa301e34e59bde15262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/44] fix: a histogram fill that fails half-way leaves the
 histogram unchanged

Hist1d.fill and Hist2d.fill added the bin counts before the squared
errors were computed, so a failure in the second step (for example a
MemoryError when squaring the weights) left counts and errors
inconsistent. Hist1d.fill also documents weights as optional.
---
 templatefitter/histograms/hist1d.py | 8 +++++---
 templatefitter/histograms/hist2d.py | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..15a7834 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = bins
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
@@ -54,7 +54,7 @@ class Hist1d(AbstractHist):
         if isinstance(weights, list):
             weights = np.array(weights)
 
-        self._bin_counts += binned_statistic(
+        bin_counts = binned_statistic(
             data,
             weights,
             statistic='sum',
@@ -62,7 +62,7 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
-        self._bin_errors_sq += binned_statistic(
+        bin_errors_sq = binned_statistic(
             data,
             weights ** 2,
             statistic='sum',
@@ -70,6 +70,8 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..e978881 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -44,17 +44,20 @@ class Hist2d(AbstractHist):
         if isinstance(weights, list):
             weights = np.array(weights)
 
-        self._bin_counts += binned_statistic_2d(
+        bin_counts = binned_statistic_2d(
             x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
         )[0]
 
-        self._bin_errors_sq += binned_statistic_2d(
+        bin_errors_sq = binned_statistic_2d(
             x=data[0],
             y=data[1],
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
         )[0]
+
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
-- 
2.43.0


From 35e383b157847eb0d631211e81e3ca03da947473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/44] fix: histograms keep their own copy of bin edges and
 binned contents

from_binned_data stored the caller's arrays, so a later fill modified the
caller's data (or raised for integer counts) and later changes by the
caller modified the histogram; bin edges given as a list broke bin_mids
and bin_widths.
---
 templatefitter/histograms/hist1d.py |  8 ++++----
 templatefitter/histograms/hist2d.py | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 15a7834..95d48e5 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,7 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights=None):
@@ -92,12 +92,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index e978881..02148f8 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,8 +35,8 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
-            self._range = tuple(map(get_bin_range, bins))
+            self._bin_edges = [np.array(edges) for edges in bins]
+            self._range = tuple(map(get_bin_range, self._bin_edges))
 
     def fill(self, data, weights=None):
         if weights is None:
@@ -78,12 +78,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From afa45b27734bda21427add3f087118f81b65ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/44] fix: an empty template predicts zero events instead of
 nan

---
 templatefitter/templates/abstract_template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..2fe07e8 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -239,5 +239,8 @@ class AbstractTemplate(ABC):
 
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
+    if not np.any(bin_counts):
+        return np.zeros_like(bin_counts)
+
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
     return per_bin_yields / np.sum(per_bin_yields)
-- 
2.43.0


From 6ab6888ca92e58e2a160c069a5b3022b5829e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 04/44] fix: template reset restores the original yield

The shape of a template is a snapshot of the histogram it was created
from, but reset took the yield from the histogram as it is now, so filling
the histogram after creating the template changed what reset restores.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 2fe07e8..44be3e4 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From ee42f39292f61fb60bdfccbca21739be148004ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 05/44] fix: template params setter copies the given array

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 44be3e4..56d6a91 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From ae522a19146b1e2d5dd57379e432cef9861b5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/44] fix: a systematic that cannot be added leaves the
 template unchanged

If the correlation matrix could not be inverted, the covariance had
already been changed while the inverse and the relative errors had not.
---
 templatefitter/templates/abstract_template.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 56d6a91..a33ed00 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -186,18 +186,23 @@ class AbstractTemplate(ABC):
         given histogram up and down variations.
         """
         
-        self._cov_mats.append(np.copy(cov_mat))
-
-        self._cov += cov_mat
-        self._corr = cov2corr(self._cov)
-        self._inv_corr = np.linalg.inv(self._corr)
-        self._relative_errors = np.divide(
-            np.sqrt(np.diag(self._cov)),
+        cov = self._cov + cov_mat
+        corr = cov2corr(cov)
+        inv_corr = np.linalg.inv(corr)
+        relative_errors = np.divide(
+            np.sqrt(np.diag(cov)),
             self._flat_bin_counts,
             out=np.full(self._num_bins, 1e-7),
             where=self._flat_bin_counts != 0,
         )
 
+        # only change the template once every new quantity is available
+        self._cov_mats.append(np.copy(cov_mat))
+        self._cov = cov
+        self._corr = corr
+        self._inv_corr = inv_corr
+        self._relative_errors = relative_errors
+
     @property
     def values(self):
         """Calculates the expected number of events per bin using
-- 
2.43.0


From 7f9942d8f918544b60f1e23886e84a66fc2c29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 07/44] fix: add_variation uses the binning of the template,
 also in 2d

The up and down variations were filled into equal-width bins even if the
template has variable bin widths, and Template2d.add_variation raised a
TypeError for every input.
---
 templatefitter/templates/template1d.py |  9 +++------
 templatefitter/templates/template2d.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..93fdddd 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -44,12 +44,9 @@ class Template1d(AbstractTemplate):
     def add_variation(self, data, weights_up, weights_down):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
-        hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
-        )
-        hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
-        )
+        bin_edges = self._hist.bin_edges
+        hup = Hist1d(bins=bin_edges, data=data, weights=weights_up)
+        hdown = Hist1d(bins=bin_edges, data=data, weights=weights_down)
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
         )
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..4e7ec75 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -50,14 +51,13 @@ class Template2d(AbstractTemplate):
     def add_variation(self, data, weights_up, weights_down):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
-        hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+        bin_edges = self._hist.bin_edges
+        hup = Hist2d(bins=bin_edges, data=data, weights=weights_up)
+        hdown = Hist2d(bins=bin_edges, data=data, weights=weights_down)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
         )
-        hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
-        )
-
-        self._add_cov_mat(hup, hdown)
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From a0de320eb30970f1c0b25584b60ccfc3d90ca148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/44] fix: the likelihood always uses the current
 efficiencies and systematics

The efficiencies, process indices and inverse correlation matrix of a
channel were cached for ever, so a template or a systematic added after
the first likelihood evaluation was ignored or made the next evaluation
raise.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From 466a1a0a87c0e2fd6df5538de3ae14e407a1d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 09/44] fix: templates and data with different bin edges are
 incompatible

A channel accepted any template or dataset with the same number of bins
and the same outer range, even if the bin edges differ, and then compared
the contents of bins which do not belong together.
---
 templatefitter/templates/channel.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..698cf03 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -494,9 +494,28 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = self._range == template.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = self._range == hist.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(hist.bin_edges)
+
+    def _check_bin_edges(self, bin_edges):
+        """Checks if the given bin edges match the bin edges of the templates
+        and the dataset which have already been added to this channel.
+        """
+        if self.templates:
+            reference = self.bin_edges
+        elif self._hdata is not None:
+            reference = self._hdata.bin_edges
+        else:
+            return True
+
+        if len(self._bins) == 1:
+            reference, bin_edges = [reference], [bin_edges]
+
+        return all(
+            np.allclose(edges, ref, rtol=0.0, atol=1e-6 * np.min(np.diff(ref)))
+            for edges, ref in zip(bin_edges, reference)
+        )
-- 
2.43.0


From bf95f00ba5cdb30d574a250f23d26f09425922ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 10/44] fix: add_data changes no channel if one of the datasets
 is rejected

---
 templatefitter/templates/channel.py            | 18 +++++++++++++++---
 .../templates/multi_channel_template.py        |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 698cf03..af24c54 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -139,9 +139,21 @@ class Channel:
             AbstractHist).
         """
 
-        if self._check_hist(hdata):
-            self._hdata = hdata
-        else:
+        self.check_data(hdata)
+        self._hdata = hdata
+
+    def check_data(self, hdata):
+        """Raises a RuntimeError if the given binned dataset is not
+        compatible with this channel.
+
+        Parameters
+        ----------
+        hdata: Hist1d or Hist2d
+            A valid histogram instance (has to inherit from
+            AbstractHist).
+        """
+
+        if not self._check_hist(hdata):
             raise RuntimeError(
                 "Given data histogram is not compatible with the Channel."
             )
diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..62c6063 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -169,7 +169,9 @@ class MultiChannelTemplate:
         for channel, hdata in kwargs.items():
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
+            self.channels[channel].check_data(hdata)
 
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From 71665e94ae9d71c36841804f961597032544a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 11/44] fix: repeating a yield constraint replaces it instead
 of counting it twice

The second constraint overwrote the value and the error of the first one,
but the term was then added to the likelihood once per call.
---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 62c6063..830b9ab 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From 018b6f61a01b44822d7388d8a4c71dc4c2b37932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 12/44] fix: update_parameters rejects arrays of the wrong
 length up front

Too long arrays were silently truncated, and for too short ones the first
channels were changed before the update failed.
---
 templatefitter/templates/multi_channel_template.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 830b9ab..6433130 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -270,6 +270,11 @@ class MultiChannelTemplate:
 
         """
 
+        if len(new_values) != self.num_processes + self.num_nui_params:
+            raise RuntimeError(
+                "Number of new parameter values does not match the number of parameters."
+            )
+
         per_ch_yields, per_ch_nui_params = self.generate_per_channel_parameters(
             new_values
         )
-- 
2.43.0


From 8627e16a4048e08eb5653b172ca157e62b385a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 13/44] fix: the scipy minimizer fixes every parameter that was
 requested

All constraints shared the loop variable, so only the parameter fixed last
was constrained, and several identical constraints made SLSQP fail with a
singular matrix.
---
 templatefitter/minimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..4e1d65f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
@@ -439,7 +440,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From 89c6fcfdb9bfd132f248d2172b1afc8b9dfee477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 14/44] fix: fixed parameters have zero uncertainty with both
 minimizers

With iminuit the rows of fixed parameters were missing in the covariance
matrix, so it did not match the parameter names any more, and the error of
a fixed parameter was its initial step size. With scipy the uncertainties
of all parameters were calculated as if nothing were fixed.
---
 templatefitter/minimizer.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 4e1d65f..03b7eba 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -296,9 +296,9 @@ class IMinuitMinimizer(AbstractMinimizer):
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-        self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
@@ -386,8 +386,23 @@ class ScipyMinimizer(AbstractMinimizer):
         self._fcn_min_val = opt_result.fun
 
         if get_hesse:
-            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
-            self._params.covariance = np.linalg.inv(hesse)
+            # fixed parameters do not contribute to the covariance matrix
+            free = [
+                i for i in range(self.params.num_params) if i not in self._fixed_params
+            ]
+
+            def fcn_of_free_params(free_values, *args):
+                values = np.array(opt_result.x)
+                values[free] = free_values
+                return self._fcn(values, *args)
+
+            covariance = np.zeros((self.params.num_params, self.params.num_params))
+            if free:
+                hesse = ndt.Hessian(fcn_of_free_params)(
+                    opt_result.x[free], *additional_args
+                )
+                covariance[np.ix_(free, free)] = np.linalg.inv(hesse)
+            self._params.covariance = covariance
             self._params.correlation = cov2corr(self._params.covariance)
             self._params.errors = np.sqrt(np.diag(self._params.covariance))
 
-- 
2.43.0


From 1152c5ebb99ca15e1ceee694216017e1864d7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 15/44] fix: a minimization result is not changed by the next
 minimization

---
 templatefitter/minimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 03b7eba..8643434 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -2,6 +2,7 @@
 Implementation of a minimizer class based on the scipy.optimize.minimize
 function.
 """
+import copy
 import functools
 import logging
 from abc import ABC, abstractmethod
@@ -307,7 +308,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         # if not self._success:
         #     raise RuntimeError(f"Minimization was not successful.\n" f"{fmin}\n")
 
-        return MinimizeResult(m.fval, self._params, self._success)
+        return MinimizeResult(m.fval, copy.deepcopy(self._params), self._success)
 
     def set_param_fixed(self, param_id):
         param_index = self.params.param_id_to_index(param_id)
@@ -409,7 +410,9 @@ class ScipyMinimizer(AbstractMinimizer):
         if verbose:
             print(self._params)
 
-        result = MinimizeResult(opt_result.fun, self._params, self._success)
+        result = MinimizeResult(
+            opt_result.fun, copy.deepcopy(self._params), self._success
+        )
 
         return result
 
-- 
2.43.0


From ac6b83956b67509a47128f82750686004119b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 16/44] fix: the profile likelihood respects fixed and bound
 parameters

The scan ignored set_parameter_fixed and set_parameter_bounds, and it
released the nuisance parameters fixed with fix_nui_params=True, so the
profile was compared to the minimum of a different likelihood.
---
 templatefitter/fitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..ce5d562 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,13 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+
+        for fixed_param_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_param_id)
+
+        for bound_param_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_param_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,9 +277,10 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
+        # the scan may leave the allowed range of the scanned parameter
+        minimizer.set_param_bounds(param_id, (None, None))
         minimizer.set_param_fixed(param_id)
 
         try:
-- 
2.43.0


From 42ba1b8d9efa647dd41b894625c1f5224af51557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 17/44] fix: get_significance leaves the templates unchanged
 and is never nan

The yield of the tested process stayed at zero after the call, also if one
of the fits failed. A bound which excludes zero made the background-only
fit use the bound instead of zero.
---
 templatefitter/fitter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index ce5d562..5d5ce36 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -354,7 +354,9 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        yield_name = f"{process_id}_yield"
+        initial_values = self._nll.x0
+        initial_values[self._nll.param_names.index(yield_name)] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -372,10 +374,13 @@ class TemplateFitter:
         for param_id, bounds in self._bound_parameters.items():
             minimizer.set_param_bounds(param_id, bounds)
 
-        minimizer.set_param_fixed(process_id + "_yield")
+        # zero has to be tested even if it is outside of the allowed range
+        minimizer.set_param_bounds(yield_name, (None, None))
+        minimizer.set_param_fixed(yield_name)
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-        return np.sqrt(q0)
+        # limited precision of the minimization can make q0 slightly negative
+        return np.sqrt(max(q0, 0.0))
-- 
2.43.0


From 85195fcb67ee666c47cbaddda0cd218dc6f25420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 18/44] fix: TemplateFitter.fix_nui_params has an effect

The method set a flag which was never read.
---
 templatefitter/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 5d5ce36..0b7fc0a 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -74,6 +74,7 @@ class TemplateFitter:
             A namedtuple with the most important information about the
             minimization.
         """
+        fix_nui_params = fix_nui_params or self._fix_nui_params
         self._nll = self._templates.create_nll()
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -205,6 +206,7 @@ class TemplateFitter:
         np.ndarray
             Hesse approximation. Shape is (`num_points`,).
         """
+        fix_nui_params = fix_nui_params or self._fix_nui_params
         print(f"\nCalculating profile likelihood for parameter: '{param_id}'")
 
         minimizer = minimizer_factory(
@@ -331,6 +333,7 @@ class TemplateFitter:
 
         # perform the nominal minimization
 
+        fix_nui_params = fix_nui_params or self._fix_nui_params
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
         )
-- 
2.43.0


From b7847cdeca5871ab935123cdf0b8c07bb00b7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 19/44] fix: a toy study gives the channels their datasets back

The measured dataset of every channel was lost and the last toy dataset
was silently used by every following fit.
---
 templatefitter/toy_study.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/templatefitter/toy_study.py b/templatefitter/toy_study.py
index 93c37f2..ae6ba6f 100644
--- a/templatefitter/toy_study.py
+++ b/templatefitter/toy_study.py
@@ -1,5 +1,7 @@
 import logging
 
+from contextlib import contextmanager
+
 import numpy as np
 import tqdm
 
@@ -45,7 +47,8 @@ class ToyStudy:
         self._reset_state()
 
         print(f"Performing toy study with {n_exp} experiments...")
-        for _ in tqdm.tqdm(range(n_exp), desc="Experiments Progress"):
+        with self._preserve_data():
+            for _ in tqdm.tqdm(range(n_exp), desc="Experiments Progress"):
                 self._experiment(max_tries)
 
         self._is_fitted = True
@@ -78,6 +81,20 @@ class ToyStudy:
 
         raise RuntimeError("Experiment exceed max number of retries.")
 
+    @contextmanager
+    def _preserve_data(self):
+        """The toy datasets temporarily replace the datasets of the
+        channels, which are restored at the end.
+        """
+        datasets = {
+            name: channel._hdata for name, channel in self._templates.channels.items()
+        }
+        try:
+            yield
+        finally:
+            for name, hdata in datasets.items():
+                self._templates.channels[name]._hdata = hdata
+
     def do_linearity_test(self, process_id, limits, n_points=10, n_exp=200):
         """Performs a linearity test for the yield parameter of
         the specified template.
@@ -108,8 +125,9 @@ class ToyStudy:
 
             self._templates.set_yield(process_id, param_point)
 
-            for _ in tqdm.tqdm(range(n_exp), desc="Experiment Progress"):
-                self._experiment(get_hesse=False)
+            with self._preserve_data():
+                for _ in tqdm.tqdm(range(n_exp), desc="Experiment Progress"):
+                    self._experiment(get_hesse=False)
 
             self._is_fitted = True
 
-- 
2.43.0


From 8172a6951dee1b58238dd7e1616280e923e8e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 20/44] fix: bins without data events have a finite legacy
 likelihood

The local xlogyx returned inf for x = 0, so a single empty bin made
StackedTemplateNegLogLikelihood -inf everywhere.
---
 templatefitter/nll.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..05bc262 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -10,6 +10,8 @@ import numpy as np
 
 from scipy.linalg import block_diag
 
+from templatefitter.utility import xlogyx
+
 import warnings
 
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
@@ -156,10 +158,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
             nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
-
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From 26c649ce5c7709896bc9ca6873dced96543caf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 21/44] fix: corr_mat and plot_on of a legacy template

corr_mat recursed without end and plot_on subtracted from a method.
---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 40a9382d2ea2596aa9f0ed649a629c1304e8b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 22/44] fix: iminuit varies parameters which start at zero

---
 templatefitter/minimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 8643434..fb6d0ab 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -280,10 +280,14 @@ class IMinuitMinimizer(AbstractMinimizer):
 
     def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
 
+        initial_params = np.asarray(initial_params, dtype=float)
+        # a parameter with an initial step size of zero might never be varied
+        step_sizes = np.where(initial_params != 0, 0.05 * np.abs(initial_params), 1.0)
+
         m = Minuit.from_array_func(
             self._fcn,
             initial_params,
-            error=0.05 * initial_params,
+            error=step_sizes,
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-- 
2.43.0


From 6d3319044edf9a838cbab132565826f1dca55452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 23/44] fix: a fit that ends at nan is not successful

---
 templatefitter/minimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index fb6d0ab..501b3e2 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -306,7 +306,10 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
-            fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
+            fmin["is_valid"]
+            and fmin["has_valid_parameters"]
+            and fmin["has_covariance"]
+            and bool(np.isfinite(m.fval))
         )
 
         # if not self._success:
-- 
2.43.0


From 6e6da1e23c5f7a4121ec52cc6381d47ccb26cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 24/44] fix: the uncertainties of iminuit are calculated from
 the Hesse matrix

---
 templatefitter/fitter.py    | 6 ++++--
 templatefitter/minimizer.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 0b7fc0a..d4d5d7c 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -65,8 +65,10 @@ class TemplateFitter:
             Whether to calculate the Hesse matrix in the estimated
             minimum of the negative log likelihood function or not.
             Can be computationally expensive if the number of parameters
-            in the likelihood is high. It is only needed for the scipy
-            minimization method. Default is True.
+            in the likelihood is high. It is needed for the uncertainties
+            of the parameters: without it, the scipy minimization method
+            provides none and iminuit only an approximation. Default is
+            True.
 
         Returns
         -------
diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 501b3e2..85536fd 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -278,7 +278,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         super().__init__(fcn, param_names)
         self._fixed_params = [False for _ in self.params.names]
 
-    def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
+    def minimize(self, initial_params, verbose=1, errordef=0.5, get_hesse=True):
 
         initial_params = np.asarray(initial_params, dtype=float)
         # a parameter with an initial step size of zero might never be varied
@@ -299,6 +299,10 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        # the uncertainties estimated by migrad itself are only approximate
+        if get_hesse and not all(self._fixed_params):
+            m.hesse()
+
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
-- 
2.43.0


From e828b55718b259d62a875c9f72f7f8d870bd8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 25/44] fix: iminuit varies parameters which start close to
 zero

---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 85536fd..7b73146 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -281,8 +281,8 @@ class IMinuitMinimizer(AbstractMinimizer):
     def minimize(self, initial_params, verbose=1, errordef=0.5, get_hesse=True):
 
         initial_params = np.asarray(initial_params, dtype=float)
-        # a parameter with an initial step size of zero might never be varied
-        step_sizes = np.where(initial_params != 0, 0.05 * np.abs(initial_params), 1.0)
+        # a parameter with an initial step size of (almost) zero might never be varied
+        step_sizes = np.maximum(0.05 * np.abs(initial_params), 0.1)
 
         m = Minuit.from_array_func(
             self._fcn,
-- 
2.43.0


From a9bddf16169a08dd0950ba42f23a756c3e6448a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 26/44] fix: post-fit bin uncertainties use the parameters of
 their own channel

---
 templatefitter/templates/channel.py | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index af24c54..2dca495 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -184,6 +184,25 @@ class Channel:
 
         return param_array[: self.num_templates], param_array[self.num_templates :]
 
+    def _param_indices(self, result_params: Parameters) -> list:
+        """Returns the indices of the parameters of this channel (yields
+        followed by nuisance parameters, in the order of the templates)
+        in the parameters of a fit, which may contain other channels and
+        may list the processes in a different order.
+        """
+        own_names = [f"{process}_yield" for process in self.processes]
+        for process in self.processes:
+            own_names += [f"{self.name}_{process}_bin_{i}" for i in range(self.num_bins)]
+
+        names = list(result_params.names)
+        if all(name in names for name in own_names):
+            return [names.index(name) for name in own_names]
+        if len(names) == len(own_names):
+            return list(range(len(names)))
+        raise ValueError(
+            f"Given parameters do not contain the parameters of channel {self.name}."
+        )
+
     def propagate_parameter_uncertainties(
         self, result_params: Parameters
     ) -> np.ndarray:
@@ -197,8 +216,12 @@ class Channel:
             yields, nui_params = self.split_parameter_array(param_values)
             return self._expected_evts_per_bin(yields, nui_params)
 
-        jac = nd.Jacobian(exp_bin_counts)(result_params.values)
-        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
+        indices = self._param_indices(result_params)
+        values = np.asarray(result_params.values)[indices]
+        covariance = np.asarray(result_params.covariance)[np.ix_(indices, indices)]
+
+        jac = nd.Jacobian(exp_bin_counts)(values)
+        bin_by_bin_cov = jac @ covariance @ np.transpose(jac)
 
         return bin_by_bin_cov
 
@@ -324,7 +347,8 @@ class Channel:
             post_fit_errors = np.sqrt(np.diag(post_fit_cov))
         elif post_fit_uncertainties == "scale":
             n_templates = len(self.templates)
-            nui_param_errors = result_params.errors[n_templates:].reshape((n_templates,-1))
+            errors = np.asarray(result_params.errors)[self._param_indices(result_params)]
+            nui_param_errors = errors[n_templates:].reshape((n_templates,-1))
             pre_fit_errors = np.vstack([template.errors for template in self.templates.values()])
             post_fit_errors = np.sqrt(np.sum((nui_param_errors*pre_fit_errors)**2, axis=0))
 
-- 
2.43.0


From c81e94707566568f37fec714700c5aea7bc690e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 27/44] fix: a scipy minimization without Hesse matrix has no
 uncertainties of an earlier one

---
 templatefitter/minimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 7b73146..aafea58 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -394,7 +394,11 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
+        num_params = self.params.num_params
         self._params.values = opt_result.x
+        self._params.errors = np.zeros(num_params)
+        self._params.covariance = np.zeros((num_params, num_params))
+        self._params.correlation = np.zeros((num_params, num_params))
         self._fcn_min_val = opt_result.fun
 
         if get_hesse:
@@ -408,7 +412,7 @@ class ScipyMinimizer(AbstractMinimizer):
                 values[free] = free_values
                 return self._fcn(values, *args)
 
-            covariance = np.zeros((self.params.num_params, self.params.num_params))
+            covariance = np.zeros((num_params, num_params))
             if free:
                 hesse = ndt.Hessian(fcn_of_free_params)(
                     opt_result.x[free], *additional_args
-- 
2.43.0


From 5bea5e5bbfb55955dafcad8f5d74e61cfafca78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 28/44] fix: a covariance matrix that cannot be added leaves
 the legacy template unchanged

---
 templatefitter/templates_legacy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..9daa612 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -199,9 +199,14 @@ class Template(AbstractTemplate):
             valid (symmetric, positive semi-definite. Shape is
             (`num_bins`, `num_bins`).
         """
-        self._cov += covariance_matrix
-        self._corr = cov2corr(self._cov)
-        self._inv_corr = np.linalg.inv(self._corr)
+        # nothing is changed if one of these calculations fails
+        cov = self._cov + covariance_matrix
+        corr = cov2corr(cov)
+        inv_corr = np.linalg.inv(corr)
+
+        self._cov = cov
+        self._corr = corr
+        self._inv_corr = inv_corr
         self._relative_errors = np.divide(
             np.sqrt(np.diag(self._cov)),
             self._hist.bin_counts,
-- 
2.43.0


From d6e981b2cd68f86a7d61a53a5c30d158f9e4043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 29/44] fix: the legacy likelihood uses the current systematics
 in both terms

---
 templatefitter/nll.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index 05bc262..2213ef2 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -112,8 +112,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
     def __init__(self, binned_dataset, templates):
         super().__init__(binned_dataset, templates)
-        self._block_diag_inv_corr_mats = block_diag(
-            *self._templates.inv_corr_mats)
 
     @property
     def x0(self):
@@ -154,7 +152,8 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
         poisson_term = np.sum(exp_evts_per_bin - self._d -
                               xlogyx(self._d, exp_evts_per_bin))
 
-        gauss_term = 0.5 * (
-            nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
+        # the fractions depend on the current systematics of the templates, too
+        inv_corr_block = block_diag(*self._templates.inv_corr_mats)
+        gauss_term = 0.5 * (nuiss_params @ inv_corr_block @ nuiss_params)
 
         return poisson_term + gauss_term
-- 
2.43.0


From 1c1d15600c89aa3dc221b5a631304528cfdc78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 30/44] fix: legacy templates keep their own copy of the
 nuisance parameters

---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 9daa612..9bdc630 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -358,7 +358,7 @@ class Template(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        self._param_nui.value = new_values
+        self._param_nui.value = np.array(new_values, dtype=float)
 
     @property
     def nui_params_errors(self):
@@ -368,7 +368,7 @@ class Template(AbstractTemplate):
 
     @nui_params_errors.setter
     def nui_params_errors(self, new_errors):
-        self._param_nui.error = new_errors
+        self._param_nui.error = np.array(new_errors, dtype=float)
 
     @property
     def cov_mat(self):
-- 
2.43.0


From 4d99c2ffbdc5e97b5180ec0c82b308213eab1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 31/44] fix: a legacy histogram fill that fails half-way leaves
 the histogram unchanged

---
 templatefitter/histogram_legacy.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..327707f 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -62,18 +62,22 @@ class Histogram:
         if len(data) != len(weights):
             raise ValueError(
                 "Shape of data array does not match weight array.")
-        self._bin_counts += scipy.stats.binned_statistic(
+        counts = scipy.stats.binned_statistic(
             x=data, values=weights, statistic="sum", bins=self._bin_edges
         )[0]
 
-        self._bin_entries += scipy.stats.binned_statistic(
+        entries = scipy.stats.binned_statistic(
             x=data, values=weights, statistic="count", bins=self._bin_edges
         )[0]
 
-        self._bin_errors_sq += scipy.stats.binned_statistic(
+        errors_sq = scipy.stats.binned_statistic(
             x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges
         )[0]
 
+        self._bin_counts += counts
+        self._bin_entries += entries
+        self._bin_errors_sq += errors_sq
+
     def scale(self, c):
         """Multiplies the histogram by the constant c.
         This means that the bin_contents are set to c*bin_contents.
@@ -298,7 +302,7 @@ class Hist1d(AbstractHist):
         if isinstance(weights, list):
             weights = np.array(weights)
 
-        self._bin_counts += scipy.stats.binned_statistic(
+        counts = scipy.stats.binned_statistic(
             data,
             weights,
             statistic='sum',
@@ -306,7 +310,7 @@ class Hist1d(AbstractHist):
             range=self._limits
         )[0]
 
-        self._bin_errors_sq += scipy.stats.binned_statistic(
+        errors_sq = scipy.stats.binned_statistic(
             data,
             weights ** 2,
             statistic='sum',
@@ -314,6 +318,9 @@ class Hist1d(AbstractHist):
             range=self._limits
         )[0]
 
+        self._bin_counts += counts
+        self._bin_errors_sq += errors_sq
+
 
 class Hist2d(AbstractHist):
     """
@@ -345,7 +352,7 @@ class Hist2d(AbstractHist):
         if isinstance(weights, list):
             weights = np.array(weights)
 
-        self._bin_counts += scipy.stats.binned_statistic_2d(
+        counts = scipy.stats.binned_statistic_2d(
             x=data[:, 0],
             y=data[:, 1],
             values=weights,
@@ -354,7 +361,7 @@ class Hist2d(AbstractHist):
             range=np.array(self._limits)
         )[0]
 
-        self._bin_errors_sq += scipy.stats.binned_statistic_2d(
+        errors_sq = scipy.stats.binned_statistic_2d(
             x=data[:, 0],
             y=data[:, 1],
             values=weights ** 2,
@@ -363,6 +370,9 @@ class Hist2d(AbstractHist):
             range=np.array(self._limits)
         )[0]
 
+        self._bin_counts += counts
+        self._bin_errors_sq += errors_sq
+
         self.x_projection.cache_clear()
         self.y_projection.cache_clear()
 
-- 
2.43.0


From 86132325339f5a6b98cd05e4fc04fe83036ef5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 32/44] fix: legacy histograms keep their own copy of binned
 contents

---
 templatefitter/histogram_legacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 327707f..8e8b8f0 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -276,13 +276,14 @@ class Hist1d(AbstractHist):
         -------
         histogram : Hist1d
         """
-        instance = cls(bin_edges)
+        instance = cls(np.array(bin_edges))
+        bin_counts = np.array(bin_counts, dtype=float)
         instance._bin_counts = bin_counts
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
         return instance
 
-- 
2.43.0


From dc8d223ba3c13e4589751f0c35f906c0a72a6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 33/44] fix: the last bounds given for a parameter count, by
 name or by index

---
 templatefitter/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index d4d5d7c..e4c2c11 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -137,6 +137,8 @@ class TemplateFitter:
             Lower and upper boundaries for this parameter.
         """
 
+        # the bounds are applied in this order, the last ones given count
+        self._bound_parameters.pop(param_id, None)
         self._bound_parameters[param_id] = bounds
 
     @staticmethod
-- 
2.43.0


From 6bc02e938bf3fa3d7254adbc46daf82ef1b5fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 34/44] fix: squared weights of histograms do not overflow for
 small integer types

---
 templatefitter/histogram_legacy.py  | 6 +++---
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 8e8b8f0..79e91fa 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -71,7 +71,7 @@ class Histogram:
         )[0]
 
         errors_sq = scipy.stats.binned_statistic(
-            x=data, values=weights ** 2, statistic="sum", bins=self._bin_edges
+            x=data, values=np.square(weights, dtype=float), statistic="sum", bins=self._bin_edges
         )[0]
 
         self._bin_counts += counts
@@ -313,7 +313,7 @@ class Hist1d(AbstractHist):
 
         errors_sq = scipy.stats.binned_statistic(
             data,
-            weights ** 2,
+            np.square(weights, dtype=float),
             statistic='sum',
             bins=self._bin_edges,
             range=self._limits
@@ -365,7 +365,7 @@ class Hist2d(AbstractHist):
         errors_sq = scipy.stats.binned_statistic_2d(
             x=data[:, 0],
             y=data[:, 1],
-            values=weights ** 2,
+            values=np.square(weights, dtype=float),
             statistic='sum',
             bins=self._bin_edges,
             range=np.array(self._limits)
diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 95d48e5..1e46548 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -64,7 +64,7 @@ class Hist1d(AbstractHist):
 
         bin_errors_sq = binned_statistic(
             data,
-            weights ** 2,
+            np.square(weights, dtype=float),
             statistic='sum',
             bins=self._bin_edges,
             range=self._range
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 02148f8..965e6a5 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -51,7 +51,7 @@ class Hist2d(AbstractHist):
         bin_errors_sq = binned_statistic_2d(
             x=data[0],
             y=data[1],
-            values=weights ** 2,
+            values=np.square(weights, dtype=float),
             statistic="sum",
             bins=self._bin_edges,
         )[0]
-- 
2.43.0


From 1913e3693c9a80f68f470ab78043717bc6d44e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 35/44] fix: filling a Hist2d with no entries is a fill that
 changes nothing

---
 templatefitter/histograms/hist2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 965e6a5..58c1486 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -45,7 +45,12 @@ class Hist2d(AbstractHist):
             weights = np.array(weights)
 
         bin_counts = binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         bin_errors_sq = binned_statistic_2d(
@@ -54,6 +59,7 @@ class Hist2d(AbstractHist):
             values=np.square(weights, dtype=float),
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         self._bin_counts += bin_counts
-- 
2.43.0


From e6a921b800e7c4069667334bb91584976dc72543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 36/44] fix: templates without a color can be drawn stacked

---
 templatefitter/templates/channel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 2dca495..511bb83 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -251,7 +251,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -321,7 +324,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
-- 
2.43.0


From e68a33475409b77a7a931507d929718bc6a2e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 37/44] fix: Template2d.plot_on does not need a function
 removed from matplotlib

---
 templatefitter/templates/template2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 4e7ec75..7012b61 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -68,8 +68,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
-        cmap = viridis(np.linspace(0, 1, 256))
+        cmap = cm.viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
         cax =ax.hist2d(
-- 
2.43.0


From 43600c984679cbafcfaa6707665195bddfefcd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 38/44] fix: legacy histograms keep their own copy of bin edges
 and assigned contents

---
 templatefitter/histogram_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index 79e91fa..ce2ced0 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -119,7 +119,7 @@ class Histogram:
 
     @bin_counts.setter
     def bin_counts(self, new_values):
-        self._bin_counts = new_values
+        self._bin_counts = np.array(new_values, dtype=float)
 
     @property
     def bin_entries(self):
@@ -250,7 +250,7 @@ class Hist1d(AbstractHist):
             self._limits = limits
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
 
         self._bin_counts = np.zeros(self._num_bins)
@@ -338,7 +338,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = [len(edges) - 1 for edges in bins]
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._limits = [np.array([np.amin(edges), np.amax(edges)]) for edges in bins]
 
         self._bin_counts = np.zeros(self._num_bins)
-- 
2.43.0


From 077ccdf17f23b7788a0aa9cc4543066adc8729c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 39/44] fix: bin contents have to match the bin edges

---
 templatefitter/histograms/hist1d.py | 5 +++++
 templatefitter/histograms/hist2d.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 1e46548..ec0a54b 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -98,6 +98,11 @@ class Hist1d(AbstractHist):
             bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
+
+        for content in (instance._bin_counts, instance._bin_errors_sq):
+            if content.shape != instance._shape:
+                raise ValueError("Bin contents do not match the bin edges.")
+
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 58c1486..3755c54 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -90,6 +90,11 @@ class Hist2d(AbstractHist):
             bin_errors = np.sqrt(instance._bin_counts)
 
         instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
+
+        for content in (instance._bin_counts, instance._bin_errors_sq):
+            if content.shape != instance._shape:
+                raise ValueError("Bin contents do not match the bin edges.")
+
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From df79def3fa9564df776de6d34db22960865f28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 40/44] fix: p-values of goodness-of-fit tests for many degrees
 of freedom

The numerical integration over an infinite range misses the chi-square
distribution if it has many degrees of freedom: perfect agreement in 300
bins was given a p-value of zero.
---
 templatefitter/stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..4cd86e3 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,5 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -11,7 +10,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -52,7 +51,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -92,5 +91,5 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
         p-value.
     """
     chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 469b4f0d6716d182978407fd09e02f0cd69acaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 41/44] fix: bins without data contribute to the likelihood
 goodness-of-fit

A single empty data bin made the test statistic and its p-value
undefined instead of contributing its expectation.
---
 templatefitter/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index 4cd86e3..8628ecc 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import rel_entr
 from scipy.stats import chi2
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
@@ -90,6 +91,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(rel_entr(data, expectation) + expectation - data)
     pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 23f7deff0c548db39455b7fe33bc636d6fc36b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 42/44] fix: an empty legacy template predicts zero events
 instead of nan

---
 templatefitter/templates_legacy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 9bdc630..aac767d 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -254,6 +254,9 @@ class Template(AbstractTemplate):
         numpy.ndarray
             Bin fractions of this template. Shape is (`num_bins`,).
         """
+        if not np.any(self._hist.bin_counts):
+            return np.zeros(self.num_bins)
+
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
         return per_bin_yields / np.sum(per_bin_yields)
-- 
2.43.0


From 74d95a4287ad9ae3a8ad7facaa3c7fcc0a9e2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 43/44] fix: the legacy update_parameters rejects arrays of the
 wrong length up front

---
 templatefitter/templates_legacy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index aac767d..d959c43 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -634,6 +634,11 @@ class StackedTemplate(AbstractTemplate):
             New yield and nuissance parameter errors. Shape is
             (`num_templates` + `num_templates`*`num_bins`,).
         """
+        num_params = self.num_templates * (1 + self.num_bins)
+        if len(new_parameters) != num_params or len(new_errors) != num_params:
+            raise ValueError(
+                "Number of new parameter values does not match the number of parameters.")
+
         yields = new_parameters[:self.num_templates]
         nuiss_params = new_parameters[self.num_templates:]
         yield_errors = new_errors[:self.num_templates]
-- 
2.43.0


From dbcfe9a7539b51851ad03e1f91f025d25a5a3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:02 +0000
Subject: [PATCH 44/44] fix: the likelihood is infinite instead of undefined
 where a bin with data has a negative expectation

Minuit does not recover from an undefined value in its line search and stays at its starting point,
which made fits fail and significances wrong.
---
 templatefitter/utility.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..086cffb 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -95,6 +95,10 @@ def xlogyx(x, y):
     elif x < 1e-100:
         return 0.0
 
+    elif y <= 0:
+        # the limit for y -> 0, which stays in force outside of the domain
+        return -np.inf
+
     elif x < y:
         return x * np.log1p((y - x) / x)
     else:
-- 
2.43.0

