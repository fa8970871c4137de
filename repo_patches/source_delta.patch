From 922aec4e83c064c809821ff98b61604bc112bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 01/22] fix: radial_profile used np.int, which numpy no longer
 provides

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From a1e4df4da9a76a68000b0e307782f657e0fb2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 02/22] fix: SIM microscopes accept the documented wiener=None

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..57294d6 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,7 +299,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From 2d108f41de178063026690976adda093d4760215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 03/22] fix: SIM microscopes accept an integer excitation
 wavelength and NA

---
 pyotf/microscope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 57294d6..8f62bd5 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -264,8 +264,10 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(
+        attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength"
+    )
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From 7ce740f1c1fbed4b4738be53a81c0003b26e4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 04/22] fix: ConfocalMicroscope.wl_exc reads and sets the
 excitation model's wavelength

---
 pyotf/microscope.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 8f62bd5..79c6597 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,7 +191,15 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    @property
+    def wl_exc(self):
+        """The excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
 
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
-- 
2.43.0


From c7ba9e4ad1a03bc33e0a680867196b33c3cf29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 05/22] fix: SIM PSF and OTF are recalculated when wiener or
 orientations change

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 79c6597..a32fbfd 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -309,8 +309,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
+
+    @property
+    def wiener(self):
+        """The value of the wiener parameter, None means no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
+    @property
+    def orientations(self):
+        """The different orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = tuple(value)
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a SIM microscope."""
-- 
2.43.0


From a66f61e4926b3e9a9595e967dcace7373feae6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 06/22] fix: easy_ifft inverts easy_fft for odd sizes

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..64dd67c 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From afedacc6589623cc5568d479c964f3c6132e18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 07/22] fix: HanserPSF puts the focal plane at zsize // 2 for
 odd zsize

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From d93b5bb7a7c65b0c90efbe36783945657b309353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 08/22] fix: SIM excitation pattern shares its origin with the
 PSF for odd sizes

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a32fbfd..6467341 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -350,11 +350,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From 1f622b78b71e37c68a0fd1bc04361faa2ffeb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 09/22] fix: prep_data_for_PR clips, centers and squares
 cropped data

---
 pyotf/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 64dd67c..9d5380f 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -287,10 +287,12 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         # pad data out to the proper size, pad with zeros
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
-        # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
-    # return centered data
+        # if need to crop, center and crop
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
+        pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        # if only one dimension was too large then the other one needs to be padded
+        pad_data = fft_pad(pad_data, (nz, xysize, xysize), mode="constant")
+    # clip at zero
     return np.fmax(0, pad_data)
 
 
-- 
2.43.0


From cb99984c42dddb32901620e8bf1e12bcd15854b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 10/22] fix: HanserPSF.zrange does not alias or reshape the
 caller's array

---
 pyotf/otf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..600c026 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,9 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # copy so that we never share data with the caller, scalars are
+        # converted to arrays for later multiplications
+        self._zrange = np.array(value, ndmin=1)
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From c74f2a36b445ab512b0aed18614767d1a8a67bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 11/22] fix: retrieve_phase leaves the caller's params
 untouched

---
 pyotf/phaseretrieval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..c7cd377 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,8 +71,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
-    params.update(
-        dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
+    params = dict(
+        params, vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1]
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-- 
2.43.0


From b1c7cdf2c41a95e8f8458d47cd567155e9dc9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 12/22] fix: fit_to_zernikes works for a single Zernike

---
 pyotf/phaseretrieval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index c7cd377..a0e87c1 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -193,7 +193,7 @@ class PhaseRetrievalResult(object):
         r, theta = self.r, self.theta
         r = r / (self.na / self.wl)
         # generate zernikes
-        zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(num_zerns, *r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From feb13068233a1ee059167de17fc28b56e1a786b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 13/22] fix: SheppardPSF applies the imaging condition without
 vectorial correction and for both objectives

---
 pyotf/otf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 600c026..bc7d876 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -533,6 +533,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # angles are measured from the optical axis of the objective collecting the wave
+        s = abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
@@ -567,7 +569,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From 4db8f7b6dd03251244311b0b9524c930bece22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 14/22] fix: degrees2noll rejects degrees that are not a
 Zernike mode and reports its input

---
 pyotf/zernike.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..6a5530a 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -188,11 +188,13 @@ def degrees2noll(n, m):
     n, m = np.asarray(n), np.asarray(m)
     # check inputs
     if not np.issubdtype(n.dtype, np.signedinteger):
-        raise ValueError("Radial degree is not integer, input = {n}")
+        raise ValueError(f"Radial degree is not integer, input = {n}")
     if not np.issubdtype(m.dtype, np.signedinteger):
-        raise ValueError("Azimuthal degree is not integer, input = {m}")
+        raise ValueError(f"Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if (abs(m) > n).any():
+        raise ValueError(f"n must always be greater or equal to m, n = {n}, m = {m}")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From 0eb1b82bff0b9471baca59f57e25547d58a18f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 15/22] fix: XZ and YZ panels of psf_plot and otf_plot show the
 plane in their title

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From dfa1d7c392a0501c16a18f416a5c4bdc0e8537df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 16/22] fix: res must be positive, like zres

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index bc7d876..861f765 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -150,6 +150,8 @@ class BasePSF(object):
         # any wrapping effects. However, allowing the number
         # to be the Abbe limit can allow phase retrieval for
         # larger pixels
+        if not value > 0:
+            raise ValueError("res must be positive")
         abbe_limit = 1 / (2 * self.na / self.wl)
         if value >= abbe_limit:
             raise ValueError(
-- 
2.43.0


From ddae0a15352d356401434a0293e6dd6e02528b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 17/22] fix: microscope repr shows the size that was passed and
 quotes strings

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6467341..064f42f 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # the model is oversampled, the user passed the final size
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0


From 76b6a7ace99a451ed6346b2e206d1537883a35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 18/22] fix: the check for uniform z steps does not depend on
 the unit of length

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 861f765..4bb8cdc 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -218,7 +218,7 @@ class BasePSF(object):
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
+            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
             pass
-- 
2.43.0


From 2dc1bb6af53fb5c0eb7a0e36c3430bbd3e02d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 19/22] fix: padded PSFs from a phase retrieval stay centered
 for any size

---
 pyotf/phaseretrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index a0e87c1..9e55cd6 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -23,7 +23,7 @@ from numpy.linalg import lstsq
 from skimage.restoration import unwrap_phase
 
 from .otf import HanserPSF
-from .utils import fft_pad, psqrt
+from .utils import psqrt
 from .zernike import noll2name, zernike
 
 logger = logging.getLogger(__name__)
@@ -217,7 +217,9 @@ class PhaseRetrievalResult(object):
         if size is not None:
             if nx < size:
                 # if size is too small, pad it out.
-                psf = fft_pad(psf, (nz, size, size), mode="constant")
+                lb = size // 2 - nx // 2
+                hb = size - nx - lb
+                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
             elif nx > size:
                 # if size is too big, crop it
                 lb = size // 2
-- 
2.43.0


From 95bd00c1b8af6a9bd7c7b4a02001851c1f8f654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 20/22] fix: microscope plots use the axial sampling of the
 data

---
 pyotf/microscope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 064f42f..80d840d 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -140,13 +140,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.model.zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=self.model.zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -166,7 +166,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.model.zres,
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From a49d2780bde3efacdc485197f4ed57843491d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 21/22] fix: radial Zernike polynomials of odd azimuthal order
 have the right sign

---
 pyotf/zernike.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 6a5530a..d6d8989 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -294,10 +294,9 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
-    coef2 = (n - m) // 2
-    jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    coef = (n - m) // 2
+    jacobi = eval_jacobi(coef, m, 0, 1 - 2 * rprime ** 2)
+    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From 11779dd85c402843ee213695f0587fe7170bf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 22/22] fix: use the step of zrange as axial pixel size of PSF
 and OTF plots

plot_psf and plot_otf check that zrange has uniform steps but then scaled the
axial direction by zres, which is unrelated when zrange was given.
---
 pyotf/otf.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 4bb8cdc..6020fc2 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -214,36 +214,40 @@ class BasePSF(object):
         return easy_fft(self.PSFi)
 
     def _validate_zrange(self):
-        """Check zrange for uniform step size."""
+        """Check zrange for uniform step size and return that step size."""
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
             if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
+            return abs(zsteps.mean())
         except AttributeError:
-            pass
+            # no zrange, the step size is given by zres
+            return self.zres
 
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        # zrange doesn't have to be based on zres
+        zres = self._validate_zrange()
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / zres * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=zres, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
         
         See `pyotf.display.otf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        # zrange doesn't have to be based on zres
+        zres = self._validate_zrange()
 
         # normalize OTF and make sure it's real
         otf = abs(self.OTFi)
@@ -254,7 +258,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=zres, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0

