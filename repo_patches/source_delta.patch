From 924fb270c26e72c6bb1955a478f3992580fc4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 01/17] fix: default gas pivot mass mb is a mass, not its
 logarithm

---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..a67290c 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -152,7 +152,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From fbff26d3362176d99b4ed4ed4dc30e7f63de72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 02/17] fix: do not let hmf merge later redshifts into the
 first redshift's mass-definition parameters

---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..88e5e4b 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1111,7 +1111,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1120,7 +1120,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From 9940a556f59e4cbf40873ef75f11bacb37e95d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:22 +0000
Subject: [PATCH 03/17] fix: downsample all satellite-alignment halo quantities
 to the same masses

The last mass was appended by comparing values, so a quantity whose last two
kept values coincide (e.g. a constant concentration) ended up with fewer
masses than the others and the Hankel calculation failed to broadcast.
---
 src/onepower/ia.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..f620a0c 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -666,17 +666,11 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         downsample_factor = self.mass_in.size // self.nmass
 
-        if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
-            downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
-                downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
-        else:
-            downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
-                downsampled_quantity = np.concatenate(
-                    (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
-                )
-        return downsampled_quantity
+        # Select by position, so that all quantities keep the same masses
+        index = np.arange(0, self.mass_in.size, downsample_factor)
+        if index[-1] != self.mass_in.size - 1:
+            index = np.append(index, self.mass_in.size - 1)
+        return quantity[..., index]
 
     @cached_quantity
     def mass(self):
-- 
2.43.0


From 23b93babed530605fba219095f461cca6b5c78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 04/17] fix: recompute omega_m after a cosmology update

---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 88e5e4b..561d70a 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From f0d5b7bc44ee1b41e2834d160b940b3c418d2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:51 +0000
Subject: [PATCH 05/17] fix: keep power_spectrum_mm from overwriting the cached
 halo-model spectrum in response mode

hmf stores cached quantities under names stripped of leading underscores, so
power_spectrum_mm and _power_spectrum_mm shared one slot: with response=True
the matter spectrum, or the response of every other spectrum, depended on
which of them was read first.
---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index a67290c..e2b3c0c 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1629,7 +1629,7 @@ class Spectra(HaloModelIngredients):
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
         )
 
-    @cached_quantity
+    @property
     def power_spectrum_mm(
         self,
     ):
-- 
2.43.0


From 75e6c4f2f59e724eb90221f4ca4a13ba2f6049f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:13 +0000
Subject: [PATCH 06/17] fix: follow changes of modelling options in update

hmf records the dependencies of a quantity when it is first calculated, and
re-records them only for 'switch' parameters, and then not when another
parameter is updated before the quantity is read again. After a change of
hmcode_ingredients, mdef_model, dewiggle, pointmass, compute_observable,
hod_model, or of a spectrum between given and None, later updates were
ignored; after a change of nonlinear_mode or response together with another
parameter, reading a spectrum could raise KeyError.
---
 src/onepower/add.py             |  2 +-
 src/onepower/bnl.py             |  3 +-
 src/onepower/hmi.py             |  3 +-
 src/onepower/ia.py              |  3 +-
 src/onepower/utils/framework.py | 50 +++++++++++++++++++++++++++++++++
 5 files changed, 57 insertions(+), 4 deletions(-)
 create mode 100644 src/onepower/utils/framework.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..a1c925b 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -3,9 +3,9 @@ from functools import cached_property
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import parameter
-from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
+from .utils.framework import Framework
 
 
 class UpsampledSpectra(Framework):
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..5a1b9b4 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -10,7 +10,8 @@ from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 try:
     from dark_emulator import darkemu
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 561d70a..ac3fcf0 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,9 +16,10 @@ from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
+from .utils.framework import Framework
+
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
 warnings.filterwarnings('ignore', message='Nonlinear mass outside mass range')
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index f620a0c..70726cd 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -13,7 +13,8 @@ from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 
 class AlignmentAmplitudes(Framework):
diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
new file mode 100644
index 0000000..3e18fc0
--- /dev/null
+++ b/src/onepower/utils/framework.py
@@ -0,0 +1,50 @@
+"""
+Base class of the onepower frameworks.
+"""
+
+import numpy as np
+
+from hmf._internals._cache import hidden_loc, obj_eq
+from hmf._internals._framework import Framework as _Framework
+
+
+def _is_option(val):
+    """
+    Whether a parameter value selects between calculations, rather than entering one.
+    """
+    return val is None or isinstance(val, str | bool | np.bool_ | type | _Framework)
+
+
+class Framework(_Framework):
+    """
+    An hmf framework whose quantities follow changes of modelling options.
+
+    hmf records on which parameters a quantity depends when it is first calculated. A change of an
+    option can make it depend on other parameters, so the record is made anew after such a change.
+    """
+
+    def update(self, **kwargs):
+        """
+        Update parameters of the framework with kwargs.
+        """
+        before = {name: getattr(self, name, None) for name in kwargs}
+        try:
+            super().update(**kwargs)
+        finally:
+            for name, old in before.items():
+                new = getattr(self, name, None)
+                if (_is_option(old) or _is_option(new)) and not obj_eq(old, new):
+                    self._forget_quantities()
+                    break
+
+    def _forget_quantities(self):
+        """
+        Drop all calculated quantities together with the record of what they depend on.
+        """
+        recalc = getattr(self, hidden_loc(self, 'recalc'))
+        for name in recalc:
+            vars(self).pop(hidden_loc(self, name), None)
+        recalc.clear()
+        getattr(self, hidden_loc(self, 'recalc_prop_par')).clear()
+        for quantities in getattr(self, hidden_loc(self, 'recalc_par_prop')).values():
+            quantities.clear()
-- 
2.43.0


From 10902cf44c8992e02caef78775a39c0e4aef41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:06 +0000
Subject: [PATCH 07/17] fix: let alignment amplitudes follow updates of
 beta_two

---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 70726cd..bc598f9 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -169,6 +169,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Secondary beta parameter.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From 9ce8a6134243d2ff28d95155e0453e8b0bcdd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:06 +0000
Subject: [PATCH 08/17] fix: let UpsampledSpectra follow updates of its
 parameters

The fractions and the two models were functools cached properties, which
update never invalidated.
---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index a1c925b..04cf2c6 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 
 from .pk import PowerSpectrumResult, Spectra
 from .utils.framework import Framework
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From f9315481aa9fa7cccabb2f5f6a9b71f130293327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:37 +0000
Subject: [PATCH 09/17] fix: leave the caller's align_params dictionary
 untouched

---
 src/onepower/pk.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index e2b3c0c..9a446b1 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From 2c1201cb42b7c4d3d9f1ce3e9e987f3595ba964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:28 +0000
Subject: [PATCH 10/17] fix: do not merge updates into dictionaries supplied by
 the caller

---
 src/onepower/utils/framework.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
index 3e18fc0..b902228 100644
--- a/src/onepower/utils/framework.py
+++ b/src/onepower/utils/framework.py
@@ -28,6 +28,10 @@ class Framework(_Framework):
         Update parameters of the framework with kwargs.
         """
         before = {name: getattr(self, name, None) for name in kwargs}
+        # hmf merges into the stored dictionary, which can be the caller's or shared with other objects
+        for name, old in before.items():
+            if isinstance(old, dict):
+                setattr(self, hidden_loc(self, name), dict(old))
         try:
             super().update(**kwargs)
         finally:
-- 
2.43.0


From 149d61dae128a7cb98097e4233336c7a9c46c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:27 +0000
Subject: [PATCH 11/17] fix: reject wavenumbers that dewiggling cannot handle

---
 src/onepower/pk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 9a446b1..436b617 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2719,10 +2719,10 @@ class Spectra(HaloModelIngredients):
         ndarray
             The wiggle component of the power spectrum.
         """
-        if not np.isclose(np.all(np.diff(k) - np.diff(k)[0]), 0.0):
-            raise ValueError('Dewiggle only works with linearly-spaced k array')
-
         dlnk = np.log(k[1] / k[0])
+        if not np.allclose(np.diff(np.log(k)), dlnk, rtol=1e-3):
+            raise ValueError('Dewiggle only works with logarithmically-spaced k array')
+
         sigma = sigma_dlnk / dlnk
 
         Pk_nowiggle = (k**ns) * np.exp(self.Tk_EH_nowiggle_lnt(np.log(k))) ** 2.0
-- 
2.43.0


From 6bf075a71ac2961d9ad7285181bd2890a045db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:08 +0000
Subject: [PATCH 12/17] fix: check the layout of the input power before
 dewiggling it

---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 436b617..d69d5f0 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -461,12 +461,12 @@ class Spectra(HaloModelIngredients):
         else:
             val = self.matter_power_lin
 
-        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
-            val = self.dewiggle_plin(val)
         if val.shape != (self.z_vec.size, self.k_vec.size):
             raise ValueError(
                 'Shape of input power spectra is not equal to redshift and k-vec dimensions!'
             )
+        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
+            val = self.dewiggle_plin(val)
         return val
 
     @cached_quantity
-- 
2.43.0


From b203359d98181b1fcf4482d1af9c9a7a1a1f6476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 13/17] fix: pass the alignment dependences to the model and
 use each for its own population

execute read the satellite slope under the central dependence and vice versa, and
never told the model which dependence was requested.
---
 cosmosis_modules/onepower_interface.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..b28328d 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -905,8 +905,11 @@ def execute(block, config):
     # TO-DO: for aligments at least we need to split the calculation in red/blue and add here!
 
     if alignment:
-        align_params = {}
-        if central_IA == 'halo_mass':
+        align_params = {
+            'central_ia_depends_on': central_IA,
+            'satellite_ia_depends_on': satellite_IA,
+        }
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -924,7 +927,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -974,7 +977,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -992,7 +995,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From 274e30addda9e6845278af8fb80afbc67c2e5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 14/17] fix: accept tables of observables in the CosmoSIS
 interface

observables_file_hod and observables_file_smf raised a KeyError on the absent bin edges.
---
 cosmosis_modules/onepower_interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index b28328d..1ff2e8f 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,11 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        nbins = (
+            len(hod_settings['obs_min'])
+            if hod_settings['observables_file'] is None
+            else 1
+        )
     else:
         hod_settings = {}
         hod_settings_mm = {}
@@ -513,7 +517,7 @@ def save_obs_results(block, power, observable_section_name, obs_settings):
     block.put(observable_section_name, 'obs_func_definition', 'obs_func * obs * ln(10)')
     for nb in range(obs_bins):
         suffix_obs = f'_{nb + 1}'
-        if np.all(
+        if obs_settings['observables_file'] is None and np.all(
             np.array(
                 [
                     obs_settings['obs_min'].size,
-- 
2.43.0


From b0240611e51b276d9a0edb358481524268df55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 15/17] fix: honour the documented defaults of nobs and the
 alignment section names

---
 cosmosis_modules/onepower_interface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 1ff2e8f..75f0b6c 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -121,7 +121,9 @@ def setup_hod_settings(options, suffix):
             [options[option_section, f'zmax_{suffix}']]
         ).flatten()
         hod_settings['nz'] = options[option_section, f'nz_{suffix}']
-    hod_settings['nobs'] = options[option_section, f'nobs_{suffix}']
+    hod_settings['nobs'] = options.get_int(
+        option_section, f'nobs_{suffix}', default=100
+    )
     hod_settings['observable_h_unit'] = options.get_string(
         option_section, 'observable_h_unit', default='1/h^2'
     ).lower()
@@ -280,7 +282,7 @@ def setup_hod(options, galaxy, alignment, split_ia):
         )
         if split_ia:
             hod_section_name_ia_1 = options.get_string(
-                option_section, 'hod_section_name_ia_1'
+                option_section, 'hod_section_name_ia_1', default='ia_1'
             )
             population_name_ia_1 = options.get_string(
                 option_section, 'output_suffix_ia_1', default=''
@@ -288,7 +290,7 @@ def setup_hod(options, galaxy, alignment, split_ia):
             pop_name_ia_1 = f'_{population_name_ia_1}' if population_name_ia_1 else ''
 
             hod_section_name_ia_2 = options.get_string(
-                option_section, 'hod_section_name_ia_2'
+                option_section, 'hod_section_name_ia_2', default='ia_2'
             )
             population_name_ia_2 = options.get_string(
                 option_section, 'output_suffix_ia_2', default=''
@@ -296,7 +298,7 @@ def setup_hod(options, galaxy, alignment, split_ia):
             pop_name_ia_2 = f'_{population_name_ia_2}' if population_name_ia_2 else ''
         else:
             hod_section_name_ia_1 = options.get_string(
-                option_section, 'hod_section_name_ia'
+                option_section, 'hod_section_name_ia', default='ia'
             )
             population_name_ia_1 = options.get_string(
                 option_section, 'output_suffix_ia', default=''
-- 
2.43.0


From 7f014bae9c5fab12123b5e71e2203702ce0eed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:28 +0000
Subject: [PATCH 16/17] fix: backward Fourier transform in pyfftlog.fftl
 weights the array by the wrong powers of r and k

The docstring promises that fftl with tdir=1 followed by tdir=-1 (or vice versa)
leaves the array unchanged and that the backward transform is the forward one with
q -> -q and rk -> 1/rk. The sign of tdir was also applied to the 1/2 in the
exponents, so the backward transform multiplied by r^-1/2, k^1/2 where the inverse
needs r^1/2, k^-1/2.
---
 cosmosis_modules/pk_to_real/pyfftlog.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cosmosis_modules/pk_to_real/pyfftlog.py b/cosmosis_modules/pk_to_real/pyfftlog.py
index 97ddf47..6f40de1 100644
--- a/cosmosis_modules/pk_to_real/pyfftlog.py
+++ b/cosmosis_modules/pk_to_real/pyfftlog.py
@@ -419,9 +419,9 @@ def fftl(a, xsave, rk=1, tdir=1):
     and applying a biased Hankel transform to a(r).
 
     The steps are:
-    1. a(r) = A(r) r^[-dir*(q-.5)]
+    1. a(r) = A(r) r^[-(dir*q-.5)]
     2. call fhtq to transform a(r) -> ã(k)
-    3. Ã(k) = ã(k) k^[-dir*(q+.5)]
+    3. Ã(k) = ã(k) k^[-(dir*q+.5)]
 
     fhti must be called before the first call to fftl, with mu = 1/2 for a sine
     transform, or mu = -1/2 for a cosine transform.
@@ -467,18 +467,18 @@ def fftl(a, xsave, rk=1, tdir=1):
     jc = np.array((fct.size + 1) / 2.0)
     j = np.arange(fct.size) + 1
 
-    # a(r) = A(r) (r/rc)^[-dir*(q-.5)]
-    fct *= np.exp(-tdir * (q - 0.5) * (j - jc) * dlnr)
+    # a(r) = A(r) (r/rc)^[-(dir*q-.5)]
+    fct *= np.exp(-(tdir * q - 0.5) * (j - jc) * dlnr)
 
     # transform a(r) -> ã(k)
     fct = fhtq(fct, xsave, tdir)
 
-    # Ã(k) = ã(k) k^[-dir*(q+.5)] rc^[-dir*(q-.5)]
-    #      = ã(k) (k/kc)^[-dir*(q+.5)] (kc rc)^(-dir*q) (rc/kc)^(dir*.5)
+    # Ã(k) = ã(k) k^[-(dir*q+.5)] rc^[-(dir*q-.5)]
+    #      = ã(k) (k/kc)^[-(dir*q+.5)] (kc rc)^(-dir*q) (rc/kc)^(dir*.5)
     lnkr = np.log(kr)
     lnrk = np.log(rk)
-    fct *= np.exp(-tdir * ((q + 0.5) * (j - jc)
-                           * dlnr + q * lnkr - lnrk / 2.0))
+    fct *= np.exp(-((tdir * q + 0.5) * (j - jc) * dlnr
+                    + tdir * (q * lnkr - lnrk / 2.0)))
 
     return fct
 
-- 
2.43.0


From e7bd5ed3f14e86a3c9385d2cc20cce428ddec337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:04 +0000
Subject: [PATCH 17/17] fix: zero-frequency coefficient of pyfftlog.fhti for
 negative integer orders

When (mu+1+q)/2 and (mu+1-q)/2 are both non-positive integers U_mu(q) is finite, but
its amplitude was multiplied by the array of factors instead of their product, so that
fhti raised a ValueError for more than one factor. Its sign was also wrong for odd mu:
with J_-n = (-1)^n J_n it is minus the product, which is also what the coefficients at
small non-zero frequency tend to.
---
 cosmosis_modules/pk_to_real/pyfftlog.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cosmosis_modules/pk_to_real/pyfftlog.py b/cosmosis_modules/pk_to_real/pyfftlog.py
index 6f40de1..056fcc8 100644
--- a/cosmosis_modules/pk_to_real/pyfftlog.py
+++ b/cosmosis_modules/pk_to_real/pyfftlog.py
@@ -322,11 +322,12 @@ def fhti(n, mu, dlnr, q=0, kr=1, kropt=0):
                 amp = np.exp(ln2 * q)
                 if xp > xm:
                     m = np.arange(1,  np.round(xp - xm) + 1)
-                    amp *= xm + m - 1
+                    amp *= np.prod(xm + m - 1)
                 elif xp < xm:
                     m = np.arange(1,  np.round(xm - xp) + 1)
-                    amp /= xp + m - 1
-                arg = np.round(xp + xm) * np.pi
+                    amp /= np.prod(xp + m - 1)
+                # the poles are approached from opposite sides as q varies
+                arg = np.pi
 
             else:  # one of xp or xm is a negative integer
                 # Transformation is singular if xp is -ve integer, and inverse
-- 
2.43.0

