From 0850aedba67877c4174c0dd8a2765a5fc87d4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:53 +0000
Subject: [PATCH 01/36] fix: check the requested temperature against the
 temperatures in the ACE file

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..456573d 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in list(temperatures):
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From a5f12cce9bd71fd8c25aebedf2c9a50f403f2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 02/36] fix: get_sigma returns private copies of nu-bar and chi
 data too

---
 ASAPy/AceIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 456573d..b7bde70 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -261,8 +261,10 @@ class AceEditor:
         # handle nu differently than other xsec
         if mt == 452:
             _, sigma = self.get_nu_distro(unadjusted=unadjusted)
+            sigma = copy.deepcopy(sigma)
         elif mt == 1018:
             _, _, sigma, _ = self.get_chi_distro(unadjusted=unadjusted)
+            sigma = copy.deepcopy(sigma)
         else:
             try:
                 if unadjusted:
-- 
2.43.0


From e800a2c1a19108075994a895ceb1db4404442fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 03/36] fix: iterate over samples with DataFrame.items
 (iteritems was removed from pandas)

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From ef0862b5b2bcfd1a673d372da858c55618c85daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 04/36] fix: import os and argparse at module level in
 XsecSampler

---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..a49f6cf 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,3 +1,6 @@
+import argparse
+import os
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -827,9 +830,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From a078c945f9d3bea2b927894562c4025abb5bfd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 05/36] fix: sampling no longer turns zero cross section points
 into one barn

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index a49f6cf..edfafcc 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -757,8 +757,9 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
+                # in case we get a 0 group mean, the sample_df holds the sampled value itself rather than a relative value
+                group_mean = map_groups_to_continuous(e, xsec['e high'], xsec['x-sec(1)'], min_e=xsec['e low'].min())
+                original_sigma[(original_sigma == 0) & (group_mean == 0)] = 1
 
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
-- 
2.43.0


From 5b91f38600a6b021a4661e437f33ca0d274290dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 06/36] fix: map energies equal to the lowest bound to the
 lowest energy group

---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index edfafcc..67489eb 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -297,6 +297,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
 
     # map to actual group number
     group_nums = 1 + num_groups - bins
+    # an energy exactly on the lowest bound belongs to the lowest energy group
+    group_nums[group_nums > num_groups] = num_groups
     # for now replace the too low and too high bins with nearest good bin. Later they will be overwritten to user value
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
-- 
2.43.0


From 00983c35229629891d8e8ae0965f6a7bab500747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 07/36] fix: zero-mean groups sampled with a normal
 distribution no longer become infinite

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 67489eb..7aad363 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -385,9 +385,10 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
+    # if a non-finite value is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
     # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    zero_mean = ~np.isfinite(sample_df)
+    sample_df[zero_mean] = sample_df_full_vals[zero_mean]
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From d0fb9e2c4626762a440e8760bbf4feffafc52d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 08/36] fix: leave variables without correlation data unsampled
 when they are the only ones

---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..0bf9f9e 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = set_zero_corr_to_zero
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From 936ebcf864d62f797d5a98742ea3642952330c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 09/36] fix: treat the distribution name case-insensitively
 throughout sample_with_corr

---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 0bf9f9e..7f87b0c 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -290,6 +290,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
 
     """
 
+    distro = distro.lower()
+
     mean_values_original = np.array(mean_values)
     desired_corr = np.array(desired_corr)
 
@@ -382,8 +384,6 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
 
     # in theory ANY distro can be used for each var, for easy of interface only one distribution is used here
 
-    distro = distro.lower()
-
     # create a norm distro with mean/std_dev then sample from it using percent point func (inv of cdf percentiles)
     if distro == 'normal':
         distro_to_sample_from = sci_norm
-- 
2.43.0


From c5b3875a4c1b4e1dbe6ea8c7ba9b1d0f4f3221ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 10/36] fix: apply the pivoting permutation when falling back
 to gmw_cholesky

---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 7f87b0c..06f0462 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -368,7 +368,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -377,7 +377,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From 19a3e745f65da85636d6f6c31828ba17cd086ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 11/36] fix: make_njoy_run can run NJOY (its run argument hid
 the run function)

---
 ASAPy/njoy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..63f2beb 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -393,6 +393,10 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an argument called run which hides the function
+_run_njoy = run
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -659,7 +663,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
-- 
2.43.0


From 9b900e02189e0840cc0688072834ae03091841a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 12/36] fix: make_njoy_run writes the ACE and xsdir files it
 opens

---
 ASAPy/njoy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 63f2beb..7b4a833 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -681,6 +681,18 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE file
+                    ace_file.write(text)
+
+                    # Concatenate into destination xsdir file
+                    text = open(fname.format(xsdir, temperature), 'r').read()
+                    xsdir_file.write(text)
+
+            # Remove ACE/xsdir files for each temperature
+            for temperature in temperatures:
+                os.remove(fname.format(ace, temperature))
+                os.remove(fname.format(xsdir, temperature))
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From bfc811041deb0b7bff55b3ab3a66bc3fb4a3d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 13/36] fix: make_pendf asks for a reconr-only run and runs it

---
 ASAPy/njoy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 7b4a833..b970389 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -419,7 +419,8 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, run=True,
+                  stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
-- 
2.43.0


From 1f8507b9626f4640a2726b5a8d36ac6e1556f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 14/36] fix: errorr and heatr read the reconr tape when broadr
 is off

---
 ASAPy/njoy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index b970389..35dc27c 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -508,7 +508,8 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
     commands += _TEMPLATE_RECONR
     nlast = npendf
 
-    # broadr
+    # broadr (without it the modules below read the reconr tape)
+    nbroadr = nlast
     if broadr:
         nbroadr = nlast + 1
         commands += _TEMPLATE_BROADR
-- 
2.43.0


From 993f24d2abb4e8b6a5bd924cd515bf2cf7b5330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 15/36] fix: linear-log integral of Tabulated1D weights the
 constant term by the interval

---
 ASAPy/data/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..230fcb3 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -295,7 +295,8 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + \
+                                            m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From 2620a989d068c37b0d3470c52587cb851ca102fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 16/36] fix: ResonancesWithBackground resolves the resonance
 types it checks against

---
 ASAPy/data/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 230fcb3..b68603b 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -620,6 +620,8 @@ class ResonancesWithBackground(EqualityMixin):
         self.mt = mt
 
     def __call__(self, x):
+        from . import resonance
+
         # Get background cross section
         xs = self.background(x)
 
@@ -665,6 +667,8 @@ class ResonancesWithBackground(EqualityMixin):
 
     @resonances.setter
     def resonances(self, resonances):
+        from .resonance import Resonances
+
         cv.check_type('resolved resonance parameters', resonances,
                       Resonances)
         self._resonances = resonances
-- 
2.43.0


From ca15cae0864cc9e450dc1d187735ed7cf35b1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 17/36] fix: read HDF5 datasets with [()] (Dataset.value was
 removed from h5py)

---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index b68603b..3ad886e 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -349,8 +349,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[0, :]
+        y = dataset[1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -434,7 +434,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..ef64008 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..0fc40b3 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[0, :]
+        factors = dataset[1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From ffb50a633e0fa3a61350ecf7b43a532d60d37846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 18/36] fix: MadlandNix.to_hdf5 writes tm under the name its
 reader uses

---
 ASAPy/data/energy_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index 0243aab..762be81 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -731,7 +731,7 @@ class MadlandNix(EnergyDistribution):
         group.attrs['type'] = np.string_('madland-nix')
         group.attrs['efl'] = self.efl
         group.attrs['efh'] = self.efh
-        self.tm.to_hdf5(group)
+        self.tm.to_hdf5(group, 'tm')
 
     @classmethod
     def from_hdf5(cls, group):
-- 
2.43.0


From dab266411eba1e3bd39dfb62baf0ce6535c5fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 19/36] fix: CorrelatedAngleEnergy.to_hdf5 sizes mixtures by
 their length

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From 20697851eaf4351d9483de7047b1239591cc5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 20/36] fix: AngleEnergy.from_hdf5 rejects unknown distribution
 types

---
 ASAPy/data/angle_energy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/data/angle_energy.py b/ASAPy/data/angle_energy.py
index 9d094cc..3e40ea1 100644
--- a/ASAPy/data/angle_energy.py
+++ b/ASAPy/data/angle_energy.py
@@ -33,6 +33,9 @@ class AngleEnergy(EqualityMixin, metaclass=ABCMeta):
             return KalbachMann.from_hdf5(group)
         elif dist_type == 'nbody':
             return NBodyPhaseSpace.from_hdf5(group)
+        else:
+            raise ValueError("Unknown angle-energy distribution type: {}"
+                             .format(dist_type))
 
     @staticmethod
     def from_ace(ace, location_dist, location_start, rx=None):
-- 
2.43.0


From f31a536ab39717cd3686afaeaa8045bb08c4eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 21/36] fix: EnergyDistribution.from_endf rejects unknown laws

---
 ASAPy/data/energy_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index 762be81..3bce2bd 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -89,6 +89,9 @@ class EnergyDistribution(EqualityMixin, metaclass=ABCMeta):
             return WattEnergy.from_endf(file_obj, params)
         elif lf == 12:
             return MadlandNix.from_endf(file_obj, params)
+        else:
+            raise ValueError("Unsupported ENDF energy distribution law "
+                             "LF={}".format(lf))
 
 
 class ArbitraryTabulated(EnergyDistribution):
-- 
2.43.0


From ced55c8c28a444c2a7e8b0d63fd47ce5bf0ad1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 22/36] fix: get_intg_record stores each element of a row in
 its own column

---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From 612d992fd8f24f87c22d1fcb2f822763eb303e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 23/36] fix: IncidentNeutron.urr setter iterates over the items
 of the dictionary

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ef64008..0954da4 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -228,7 +228,7 @@ class IncidentNeutron(EqualityMixin):
     @urr.setter
     def urr(self, urr):
         cv.check_type('probability table dictionary', urr, MutableMapping)
-        for key, value in urr:
+        for key, value in urr.items():
             cv.check_type('probability table temperature', key, str)
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
-- 
2.43.0


From c624554d07229f34ad7ea26e4c72cc317bd4763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:38 +0000
Subject: [PATCH 24/36] fix: IncidentNeutron always has a resonance_covariance
 attribute

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 0954da4..69bfed7 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -110,6 +110,7 @@ class IncidentNeutron(EqualityMixin):
         self.reactions = OrderedDict()
         self._urr = {}
         self._resonances = None
+        self._resonance_covariance = None
 
     def __contains__(self, mt):
         return mt in self.reactions
-- 
2.43.0


From a83ba768421569463085b2442d262192810573ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:38 +0000
Subject: [PATCH 25/36] fix: IncidentNeutron.from_endf stores its temperature
 as a list of kT

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 69bfed7..3571626 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -744,7 +744,7 @@ class IncidentNeutron(EqualityMixin):
 
         # Instantiate incident neutron data
         data = cls(name, atomic_number, mass_number, metastable,
-                   atomic_weight_ratio, temperature)
+                   atomic_weight_ratio, [temperature*K_BOLTZMANN])
 
         if (2, 151) in ev.section:
             data.resonances = res.Resonances.from_endf(ev)
-- 
2.43.0


From dcfcff2266e36005dfad3d391b737afe63723465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:30 +0000
Subject: [PATCH 26/36] fix: coherent elastic cross section used the structure
 factor of the next Bragg edge

Below the first edge it was not zero and above the last edge it raised
IndexError.
---
 ASAPy/data/thermal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 0fc40b3..5abc04d 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -139,10 +139,15 @@ class CoherentElastic(EqualityMixin):
         self.factors = factors
 
     def __call__(self, E):
-        if isinstance(E, Iterable):
-            E = np.asarray(E)
         idx = np.searchsorted(self.bragg_edges, E)
-        return self.factors[idx] / E
+        if isinstance(E, Iterable):
+            E = np.asarray(E, dtype=float)
+            nonzero = idx > 0
+            xs = np.zeros_like(E)
+            xs[nonzero] = self.factors[idx[nonzero] - 1] / E[nonzero]
+            return xs
+        else:
+            return self.factors[idx - 1] / E if idx > 0 else 0.0
 
     def __len__(self):
         return len(self.bragg_edges)
-- 
2.43.0


From 0449553e2fd544b0a531a86b675989dc0052c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:44 +0000
Subject: [PATCH 27/36] fix: ThermalScattering.from_ace ignored the name it was
 given

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 5abc04d..3d2eb6f 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -482,7 +482,8 @@ class ThermalScattering(EqualityMixin):
 
         # Get new name that is GND-consistent
         ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From d08667fe2561aa41cc5297263caacdb6706a842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 28/36] fix: do not double the correlations of a covariance
 matrix that is already symmetric when sampling

---
 ASAPy/data/resonance_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..e283dd6 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -234,8 +234,8 @@ class ResonanceCovarianceRange:
         parameters = self.parameters
         cov = self.covariance
 
-        # Symmetrizing covariance matrix
-        cov = cov + cov.T - np.diag(cov.diagonal())
+        # Symmetrizing covariance matrix from its upper triangle
+        cov = np.triu(cov) + np.triu(cov, 1).T
         formalism = self.formalism
         mpar = self.mpar
         samples = []
-- 
2.43.0


From 7aaf7b8eac986eec94c0dff39ca01cc624de874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 29/36] fix: sample four-parameter Reich-Moore covariances with
 the second fission width of File 2

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index e283dd6..14c1fb2 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -288,7 +288,7 @@ class ResonanceCovarianceRange:
                 gn = sample[1::mpar]
                 gg = sample[2::mpar]
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From d57bd7e4d2e3b8e3aca3caa49e9184e44a2513e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 30/36] fix: store the neutron/capture width covariance of
 LCOMP=0 resonances

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 14c1fb2..91c8f64 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -467,7 +467,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From a6b5e549a98d5fb8e71b0d6153e5387604cd8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 31/36] fix: make room for the resonances of every l-value in
 LCOMP=0 covariances

---
 ASAPy/data/resonance_covariance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 91c8f64..cbde209 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -452,7 +452,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         # Compatible resolved resonance format
         elif lcomp == 0:
-            cov = np.zeros([4, 4])
+            cov = np.zeros([0, 0])
             records = []
             cov_index = 0
             for i in range(nls):
@@ -464,6 +464,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov_values = one_res[6:]
                     records.append(list(res_values))
 
+                    # Pad matrix for additional values
+                    cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                 constant_values=0)
+
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
@@ -474,9 +478,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From 885c2ee4acd9b8a46951a5047382c69933989b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 32/36] fix: keep the covariances of every block of resonances
 of LCOMP=1 data

---
 ASAPy/data/resonance_covariance.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index cbde209..1a92e27 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -5,6 +5,7 @@ import copy
 
 import numpy as np
 import pandas as pd
+from scipy.linalg import block_diag
 
 from . import endf
 from . import checkvalue as cv
@@ -392,6 +393,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -413,9 +415,13 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
                 # Build the upper-triangular covariance matrix
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+                blocks.append(block)
+
+            # There are no covariances between blocks of resonances
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -629,6 +635,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            blocks = []
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -650,9 +657,13 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
 
                 # Build the upper-triangular covariance matrix
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+                blocks.append(block)
+
+            # There are no covariances between blocks of resonances
+            cov = block_diag(*blocks)
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From afdf620601cf2cf60e49f4a984c77c0ff47defaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 33/36] fix: evaluate windowed multipole data at their highest
 energy

---
 ASAPy/data/multipole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index e97605c..fda8372 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -418,6 +418,7 @@ class WindowedMultipole(EqualityMixin):
         # decreased by 1.  endw does not need to be decreased because
         # range(startw, endw) does not include endw.
         i_window = int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing))
+        i_window = min(i_window, len(self.windows) - 1)
         startw = self.windows[i_window, 0] - 1
         endw = self.windows[i_window, 1]
 
-- 
2.43.0


From 6f159f952e39f6f5128be6669cdc0d9fae5c7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 34/36] fix: a subset of a subset of resonance covariances
 raised IndexError

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 1a92e27..42be569 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -193,7 +193,7 @@ class ResonanceCovarianceRange:
         mask2 = parameters[parameter_str] <= bounds[1]
         mask = mask1 & mask2
         res_cov_range.parameters = parameters[mask]
-        indices = res_cov_range.parameters.index.values
+        indices = np.flatnonzero(mask)
         # Build subset of covariance
         sub_cov_dim = len(indices)*mpar
         cov_subset_vals = []
-- 
2.43.0


From 834c7640b888a4a69bb153d9a827b48c585902e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 35/36] fix: competitive widths of Breit-Wigner resonances
 raised AttributeError

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..1e85128 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -430,7 +430,7 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
-                Ex = E + self.q[l]*(A + 1)/A
+                Ex = E + self.q_value[l]*(A + 1)/A
                 rho = k*self.channel_radius[l](Ex)
                 rhohat = k*self.scattering_radius[l](Ex)
                 px[i], sx[i] = penetration_shift(l, rho)
-- 
2.43.0


From 06fbe7c2c24f6ab29dc7a12c47bcd50234be3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:04 +0000
Subject: [PATCH 36/36] fix: multipole cross sections were truncated to
 integers when the first energy lay outside the range

---
 ASAPy/data/multipole.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index fda8372..f1bf044 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -496,7 +496,8 @@ class WindowedMultipole(EqualityMixin):
 
         """
 
-        fun = np.vectorize(lambda x: self._evaluate(x, T))
+        fun = np.vectorize(lambda x: self._evaluate(x, T),
+                           otypes=[float]*3)
         return fun(E)
 
     def export_to_hdf5(self, path, mode='a', libver='earliest'):
-- 
2.43.0

