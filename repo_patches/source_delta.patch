From dc0402472e96b1655699d845dbb2900f4ed699da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 01/34] fix: radial_profile used np.int, which numpy removed

radial_profile, and with it ApotomeMicroscope, raised AttributeError.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From f627781660db7e19a1354c454e072e063b89a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 02/34] fix: radial_profile returned NaN deviations for
 constant data

Rounding made the variance slightly negative.
---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..a2e5d02 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -408,6 +408,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # have NaN for binsize != 1
     radial_mean = tbin / nr
     # calculate the radial std
-    radial_std = np.sqrt(tbin2 / nr - radial_mean ** 2)
+    # NOTE: rounding can make the variance of constant data slightly negative
+    radial_std = np.sqrt(np.maximum(0, tbin2 / nr - radial_mean ** 2))
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From 2160bbddd58708e17b1901caea3eeeedb242a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 03/34] fix: easy_ifft was not the inverse of easy_fft for odd
 sizes

The two shifts were swapped, so SheppardPSF's PSFs of odd size were displaced.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index a2e5d02..734f8ba 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From 372a8924066a3f98948b1f103793d47637698d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 04/34] fix: HanserPSF put the focus off center for odd zsize

zsize=1 gave a plane defocused by zres, and odd stacks were displaced by a
plane with respect to center_data, easy_fft and SheppardPSF.
---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From d5b04a25200257d2e89179251d59fe9a5874fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 05/34] fix: SIM excitation was off center for odd sizes

The PSF is centered at size // 2, the excitation pattern was not.
---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..e92f892 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -320,11 +320,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From 873075994a96ef6059774d3ece04474101019d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 06/34] fix: prep_data_for_PR did not clip at zero when
 cropping

---
 pyotf/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 734f8ba..adc8a00 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -289,8 +289,8 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
     else:
         # if need to crop, crop and center and return
         my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
-    # return centered data
+        pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+    # clip at zero
     return np.fmax(0, pad_data)
 
 
-- 
2.43.0


From 7341274322a871d9c94183e87b3608cda5a8c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 07/34] fix: prep_data_for_PR cropped off center for odd sizes

center_data moves the maximum to n // 2.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index adc8a00..d41fe75 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -288,7 +288,7 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
         # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
         pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
     # clip at zero
     return np.fmax(0, pad_data)
-- 
2.43.0


From fb07999d55d4c60a3ba9d74b978e952d39132ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 08/34] fix: prep_data_for_PR returned non-square data for
 xysize between ny and nx

---
 pyotf/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index d41fe75..bc97c85 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -287,9 +287,12 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         # pad data out to the proper size, pad with zeros
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
+        # pad out a dimension that is smaller than xysize
+        ny, nx = max(ny, xysize), max(nx, xysize)
+        pad_data = fft_pad(data_without_bg, (nz, ny, nx), mode="constant")
         # if need to crop, crop and center and return
         my_slice = slice_maker((ny // 2, nx // 2), xysize)
-        pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        pad_data = center_data(pad_data)[(Ellipsis,) + my_slice]
     # clip at zero
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From 50b6fb1aca5b590f4ad261e637df8b541a452620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 09/34] fix: generate_psf padded off center when the size
 parity changed

---
 pyotf/phaseretrieval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..92ad043 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -23,7 +23,7 @@ from numpy.linalg import lstsq
 from skimage.restoration import unwrap_phase
 
 from .otf import HanserPSF
-from .utils import fft_pad, psqrt
+from .utils import psqrt
 from .zernike import noll2name, zernike
 
 logger = logging.getLogger(__name__)
@@ -216,8 +216,10 @@ class PhaseRetrievalResult(object):
         assert ny == nx, "Something is very wrong"
         if size is not None:
             if nx < size:
-                # if size is too small, pad it out.
-                psf = fft_pad(psf, (nz, size, size), mode="constant")
+                # if size is too small, pad it out, keeping the center at size // 2
+                lb = size // 2 - nx // 2
+                hb = size - nx - lb
+                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
             elif nx > size:
                 # if size is too big, crop it
                 lb = size // 2
-- 
2.43.0


From f0fd707db98d59dc90160e247159580afb532a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 10/34] fix: retrieve_phase modified the caller's params

---
 pyotf/phaseretrieval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 92ad043..72b9ebe 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,8 +71,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
-    params.update(
-        dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
+    params = dict(
+        params, vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1]
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-- 
2.43.0


From b407b2b12223bc8c33b0bd4a39aa40310e240ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 11/34] fix: HanserPSF.zrange kept a reference to and reshaped
 the caller's array

Later changes of the array changed the planes without recalculating the PSF.
---
 pyotf/otf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..c121f90 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,9 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # copy so that we don't share data with the caller and
+        # convert to array for later multiplications if passed value is scalar
+        self._zrange = np.atleast_1d(np.array(value))
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From db1f1fd8cf4ce64144bbc760d661630cdc9229a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 12/34] fix: fit_to_zernikes failed for a single mode

---
 pyotf/phaseretrieval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 72b9ebe..1f13aae 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -193,7 +193,8 @@ class PhaseRetrievalResult(object):
         r, theta = self.r, self.theta
         r = r / (self.na / self.wl)
         # generate zernikes
-        zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        # zernike squeezes its result, make sure there's always a mode axis
+        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape((-1,) + r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From 9063c9d72d4e6fd7dcad9f5aa503a010cc8df49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 13/34] fix: degrees2noll returned an index for degrees with
 |m| > n

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..949daa0 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if not (n >= abs(m)).all():
+        raise ValueError("n must always be greater or equal to m")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From 397a6e1a65f2bd8c59743db48c7e74d6ff54d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 14/34] fix: negative pixel sizes were accepted

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index c121f90..9b4718e 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -151,6 +151,8 @@ class BasePSF(object):
         # to be the Abbe limit can allow phase retrieval for
         # larger pixels
         abbe_limit = 1 / (2 * self.na / self.wl)
+        if not value > 0:
+            raise ValueError("res must be positive")
         if value >= abbe_limit:
             raise ValueError(
                 f"{value} is larger than the Abbe Limit, try a number smaller than {abbe_limit}"
-- 
2.43.0


From e5f337381d6b35ae2a815d3c0c90bdba5c3fa65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 15/34] fix: SheppardPSF was all NaN for dual objectives with
 vectorial correction

The weights of the second shell used the cosine to the first objective's axis.
---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 9b4718e..7dd6de6 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -535,6 +535,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # the opposing objective, if there is one, is symmetric about its own axis
+        s = abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
-- 
2.43.0


From 3fb19899657b9253bfefc87dbe6c37f238655b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 16/34] fix: SheppardPSF ignored condition without vectorial
 correction

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 7dd6de6..723bb2f 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -571,7 +571,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From ab20612bcf87f26e71259021790aa58ffd4759ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 17/34] fix: ConfocalMicroscope.wl_exc could not be read and
 had no effect when set

---
 pyotf/microscope.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index e92f892..d619b46 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,15 +191,23 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
-
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
         self.pinhole_size = pinhole_size
 
         # make the emission PSF
         self.model_exc = copy.deepcopy(self.model)
-        self.model_exc.wl = wl_exc
+        self.wl_exc = wl_exc
+
+    @property
+    def wl_exc(self):
+        """Excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a confocal microscope."""
-- 
2.43.0


From bcbeb42feb1c689c5d36996fdcffc4baafe0383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 18/34] fix: SIM microscopes refused integer wavelengths and
 NAs

Even the default excitation wavelength failed if wl was an int.
---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index d619b46..f302b22 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -272,8 +272,8 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength")
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From d7f571ddc75913bb5b851225608e0c5a3406d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 19/34] fix: SIM microscopes refused the documented wiener=None

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index f302b22..a3a8d19 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -307,7 +307,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From 9189741b1fc5030f9c70beed9a8ad7eb5453ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 20/34] fix: SIM microscopes kept stale PSFs when wiener or
 orientations changed

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a3a8d19..033068d 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -307,8 +307,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
+
+    @property
+    def wiener(self):
+        """Wiener parameter, None for no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a SIM microscope."""
-- 
2.43.0


From aedd08ce530d60065fab05987ec92ebaf785aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 21/34] fix: psf_plot and otf_plot swapped the XZ and YZ panels

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From 8ce0a923dd1c9f8f7306887ac05c02d66131b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 22/34] fix: microscope plots ignored zres

---
 pyotf/microscope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 033068d..069d0a8 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -138,13 +138,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.model.zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=self.model.zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -164,7 +164,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.model.zres,
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 8c81cc85f611cfa94afad854803955b963db3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 23/34] fix: apply_aberration failed for a single pixel or no
 coefficients

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 723bb2f..a8a79dd 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -626,7 +626,8 @@ def apply_aberration(model, mcoefs, pcoefs):
     # make zernikes (need to convert kr to r where r = 1 when kr is at
     # diffraction limit)
     r = kr * model.wl / model.na
-    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)
+    # zernike squeezes its result, make sure there's always a mode axis
+    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1).reshape((-1,) + r.shape)
 
     pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
-- 
2.43.0


From 2344077535dafa54b86bdc969953fcdd60fef5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 24/34] fix: remove_bg wrapped unsigned data for integer
 multipliers

---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index bc97c85..4419626 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,8 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    # convert to float first, unsigned data would wrap around
+    return data.astype(float) - multiplier * mode
 
 
 def psqrt(data):
-- 
2.43.0


From 669b255c3070db34b113ed8c6b9a4cf90566092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 25/34] fix: radial_profile's deviation overflowed for small
 integer types

---
 pyotf/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 4419626..ae70c1d 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -403,8 +403,8 @@ def radial_profile(data, center=None, binsize=1.0):
     r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
-    # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
+    # sum the squares at equal r, as float because small integer types would overflow
+    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
-- 
2.43.0


From 8647ebbc7329e32debc6329d7933bb87f4d005db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 26/34] fix: degrees2noll overflowed for 8-bit integers

---
 pyotf/zernike.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 949daa0..ce435d4 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -195,7 +195,8 @@ def degrees2noll(n, m):
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
     if not (n >= abs(m)).all():
         raise ValueError("n must always be greater or equal to m")
-    # do the mapping
+    # do the mapping, small integer types could overflow
+    n, m = n.astype(int), m.astype(int)
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
     return noll
-- 
2.43.0


From b2a372b5ceb88747a1c4b93852006b2bb243ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 27/34] fix: plot_named_coefs mislabelled or failed for fewer
 than 15 modes

---
 pyotf/phaseretrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 1f13aae..1962be8 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -296,10 +296,12 @@ class ZernikeDecomposition(object):
         fig, ax = plt.subplots(1, 1, sharex=True, figsize=(6, 6))
         # get the ordered names
         ordered_names = [noll2name[i + 1].title() for i in range(len(noll2name))]
-        # make an x range for the bar plot
-        x = np.arange(len(ordered_names)) + 1
         # pull the data
         data = self.pcoefs[: len(ordered_names)]
+        # there may be fewer coefficients than names
+        ordered_names = ordered_names[: len(data)]
+        # make an x range for the bar plot
+        x = np.arange(len(ordered_names)) + 1
         # make the bar plot
         ax.bar(x[4:], data[4:], align="center", tick_label=ordered_names[4:])
         # set up axes
-- 
2.43.0


From 1901b5b2a1cae8fa3dd8a78ab03b658202d3c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 28/34] fix: z planes in small units were taken as uniformly
 spaced when plotting

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index a8a79dd..16285bf 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -218,7 +218,8 @@ class BasePSF(object):
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
+            # only relative differences matter, we don't know the units
+            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
             pass
-- 
2.43.0


From 543c561172bd248083306720f176fda4e1bd1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 29/34] fix: plots of models with explicit z planes took their
 spacing from zres

---
 pyotf/otf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 16285bf..4d671da 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -214,37 +214,39 @@ class BasePSF(object):
         return easy_fft(self.PSFi)
 
     def _validate_zrange(self):
-        """Check zrange for uniform step size."""
+        """Check zrange for uniform step size and return the step size."""
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
             # only relative differences matter, we don't know the units
             if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
+            # zrange can be set independently of zres
+            return abs(zsteps.mean())
         except AttributeError:
-            pass
+            return self.zres
 
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / zres * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=zres, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
         
         See `pyotf.display.otf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
 
         # normalize OTF and make sure it's real
         otf = abs(self.OTFi)
@@ -255,7 +257,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=zres, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0


From 38c80e6d0cde5ea2dfb78ea340e4d4a6ed2501a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 30/34] fix: an interrupted apply_pupil could leave arrays of
 two different pupils

---
 pyotf/otf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 4d671da..f1e952a 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -117,7 +117,9 @@ class BasePSF(object):
         Sets internal state variables to None so that when the
         user asks for them they are recalculated
         """
-        for attr in ("PSFa", "OTFa", "PSFi", "OTFi"):
+        # PSFa, which may come from a supplied pupil, goes last: if we're interrupted
+        # then what's left still belongs together
+        for attr in ("OTFi", "PSFi", "OTFa", "PSFa"):
             try:
                 delattr(self, attr)
             except AttributeError:
-- 
2.43.0


From 5a53d323276949be415500c425a82771e00c1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 31/34] fix: SIM microscopes shared their list of orientations
 with the caller

---
 pyotf/microscope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 069d0a8..9fc55eb 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -327,7 +327,8 @@ class BaseSIMMicroscope(WidefieldMicroscope):
 
     @orientations.setter
     def orientations(self, value):
-        self._orientations = value
+        # copy so that we don't share data with the caller
+        self._orientations = copy.copy(value)
         self._attribute_changed()
 
     def __repr__(self):
-- 
2.43.0


From 4a358176449b47a828f2cead9b65104011136284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 32/34] fix: microscope representations stated the oversampled
 size and unquoted options

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 9fc55eb..46ea4ff 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # the size of the microscope's grid, not the oversampled one
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0


From 8615ef09a9009118ca01eb6afa8bcc81e2b7658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 33/34] fix: SIM microscopes ignored the explicit z planes of
 their model

---
 pyotf/microscope.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 46ea4ff..ff799b1 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -354,9 +354,13 @@ class BaseSIMMicroscope(WidefieldMicroscope):
             np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
-        z = (
-            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
-        ) * self.psf_params["zres"]
+        try:
+            # the planes of the model can be set independently of zsize and zres
+            z = self.model.zrange
+        except AttributeError:
+            z = (
+                np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
+            ) * self.psf_params["zres"]
 
         # open grid
         zz, yy, xx = z[:, None, None], x[None, :, None], x[None, None, :]
-- 
2.43.0


From 8023881521db3ba3defff940b35ca124a6a51cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 34/34] fix: microscope plots ignored the spacing of explicit z
 planes

---
 pyotf/microscope.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index ff799b1..5644590 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -130,23 +130,31 @@ class WidefieldMicroscope(object):
         """Optical transfer function of the microscope."""
         return easy_fft(self.PSF)
 
+    def _plot_zres(self):
+        """Return the axial spacing for plotting."""
+        # the planes of the model can be set independently of zres
+        if len(getattr(self.model, "zrange", ())) > 2:
+            return self.model._validate_zrange()
+        return self.model.zres
+
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
+        zres = self._plot_zres()
         # smart cropping
         lateral_extent = self.model.wl / 2 / self.model.na / self.pixel_size * 32
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.model.zres
+            / zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.model.zres, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -166,7 +174,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.model.zres,
+            zres=self._plot_zres(),
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0

