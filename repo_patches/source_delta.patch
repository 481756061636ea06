From ee2afad64f1135bd115ac2309ebbabff0b3591be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 01/25] fix: do not leave partly filled mbobs data caches
 behind

An exception or interrupt during the PSF fits, metacal or the statistics
left an empty cache entry, and a later go() on the same object failed with a
KeyError (or used incomplete data).
---
 metadetect/metadetect.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..ff55ce9 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -517,8 +517,6 @@ class Metadetect(dict):
 
         if key not in self._mbobs_data_cache:
             logger.info("key %s not in mbobs data cache", key)
-            self._mbobs_data_cache[key] = {}
-            self._mcalpsf_data_cache[key] = {}
 
             t0 = time.time()
             try:
@@ -526,17 +524,23 @@ class Metadetect(dict):
                 _psf_fit_flags = 0
             except BootPSFFailure:
                 _psf_fit_flags = procflags.PSF_FAILURE
-            self._mcalpsf_data_cache[key]["psf_fit_flags"] = _psf_fit_flags
             logger.info("PSF fits took %s seconds", time.time() - t0)
 
             mcal_res = self._get_all_metacal(mbobs)
-            self._mcalpsf_data_cache[key]["mcal_res"] = mcal_res
+
+            # only fill the caches once everything has been computed, so that
+            # an exception above does not leave partial entries behind
+            self._mcalpsf_data_cache[key] = {
+                "psf_fit_flags": _psf_fit_flags,
+                "mcal_res": mcal_res,
+            }
+            self._mbobs_data_cache[key] = {}
 
         sbkey = tuple(sorted(shear_bands))
         if sbkey not in self._mbobs_data_cache[key]:
             logger.info("shear_bands key %s not in mbobs data cache", sbkey)
-            self._mbobs_data_cache[key][sbkey] = {}
-            self._mbobs_data_cache[key][sbkey].update(
+            data = {}
+            data.update(
                 self._mcalpsf_data_cache[key]
             )
 
@@ -547,12 +551,13 @@ class Metadetect(dict):
             ormask, bmask = self._get_ormask_and_bmask(_mbobs)
             psf_stats = _get_psf_stats(
                 _mbobs,
-                self._mbobs_data_cache[key][sbkey]["psf_fit_flags"],
+                data["psf_fit_flags"],
             )
-            self._mbobs_data_cache[key][sbkey]["mfrac"] = mfrac
-            self._mbobs_data_cache[key][sbkey]["bmask"] = bmask
-            self._mbobs_data_cache[key][sbkey]["ormask"] = ormask
-            self._mbobs_data_cache[key][sbkey]["psf_stats"] = psf_stats
+            data["mfrac"] = mfrac
+            data["bmask"] = bmask
+            data["ormask"] = ormask
+            data["psf_stats"] = psf_stats
+            self._mbobs_data_cache[key][sbkey] = data
 
         return self._mbobs_data_cache[key][sbkey]
 
-- 
2.43.0


From d2b91b79090682013952e46e65455d0880368041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 02/25] fix: do not write fitter defaults into the caller's
 configuration

The default weight for the am, admom and gauss fitters was set in the
(nested) config dictionaries passed in.
---
 metadetect/metadetect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index ff55ce9..e185a47 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -271,8 +271,10 @@ class Metadetect(dict):
                 # we set this defualt
                 # it may be used to set the masked fraction measurement
                 # aperture
-                if "weight" not in cfg:
-                    cfg["weight"] = {}
+                # do it on a copy so that the config passed in by the caller
+                # is not modified
+                cfg = dict(cfg)
+                cfg["weight"] = dict(cfg.get("weight", {}))
                 if "fwhm" not in cfg["weight"]:
                     cfg["weight"]["fwhm"] = 1.2
 
-- 
2.43.0


From c5335b5437a67bbbe64ef08fd1f5c22c0a4a6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 03/25] fix: return None when the good pixels cannot be
 triangulated

interpolate_image_at_mask raised a QhullError when there were too few good
pixels or all of them were on a line, so foreground masking failed instead of
flagging the band. Also handle images with nothing left to interpolate.
---
 metadetect/interpolate.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..6c53d00 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -3,6 +3,7 @@ interpolation utils - orig. from beckermr/pizza-cutter
 """
 import numpy as np
 from scipy.interpolate import CloughTocher2DInterpolator
+from scipy.spatial import QhullError
 import logging
 
 from numba import njit
@@ -149,7 +150,7 @@ def interpolate_image_at_mask(
     Returns
     -------
     interp_image : array-like
-        The interpolated image.
+        The interpolated image, or None if there are too few good pixels.
     """
     nrows, ncols = image.shape
     npix = bad_msk.size
@@ -203,14 +204,22 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+        if bad_ind.size == 0:
+            # there is nothing left to interpolate
+            return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-        img_interp = CloughTocher2DInterpolator(
-            good_pix,
-            good_im,
-            fill_value=0.0,
-        )
+        try:
+            img_interp = CloughTocher2DInterpolator(
+                good_pix,
+                good_im,
+                fill_value=0.0,
+            )
+        except QhullError:
+            # there are too few good pixels, or they are all on a line
+            return None
         interp_image[bad_msk] = img_interp(bad_pix)
 
         return interp_image
-- 
2.43.0


From ec64204aa0c399132e0494210ae464953c3c88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 04/25] fix: do not make interpolation noise from a band
 without weight

The median of no weights is NaN, and masked pixels were filled with NaN.
---
 metadetect/masking.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadetect/masking.py b/metadetect/masking.py
index 49d47cc..1e9b3be 100644
--- a/metadetect/masking.py
+++ b/metadetect/masking.py
@@ -215,8 +215,11 @@ def _apply_mask_interp(
                     if np.all(obs.weight == 0):
                         obs.ignore_zero_weight = False
 
-                    if not np.all(bad_logic):
-                        wmsk = obs.weight > 0
+                    wmsk = obs.weight > 0
+                    # we cannot make noise without any weight
+                    if not np.all(bad_logic) and (
+                        np.any(wmsk) or not fill_isolated_with_noise
+                    ):
                         wgt = np.median(obs.weight[wmsk])
                         interp_image = interpolate_image_at_mask(
                             image=obs.image,
-- 
2.43.0


From b8d5f6d2b8f90b2e746abd5cc7ba877996c85cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 05/25] fix: record the subtracted sky also when detection
 fails

---
 metadetect/lsst/skysub.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..79034b0 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -65,14 +65,14 @@ class IterateDetectionSkySubTask(Task):
             sky_meas = 0.0
             for i in range(self.config.niter):
                 self.back.run(exposure)
-                result = self.detect.run(table, exposure)
-
-                sky_meas += exposure.getMetadata()['BGMEAN']
 
-            meta = exposure.getMetadata()
+                # record the overall sky we have subtracted so far, the
+                # detection can fail
+                meta = exposure.getMetadata()
+                sky_meas += meta['BGMEAN']
+                meta['BGMEAN'] = sky_meas
 
-            # this is the overall sky we subtracted in all iterations
-            meta['BGMEAN'] = sky_meas
+                result = self.detect.run(table, exposure)
         except LSSTRuntimeError as err:
             err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
             self.detect.log.warn(err)
-- 
2.43.0


From 8870291d7ac1338c6d0c9ff5667493e75f305c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 06/25] fix: evaluate the psf inside the image when coadding
 exposures

---
 metadetect/lsst/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..cf8d8e9 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -482,8 +482,10 @@ def coadd_exposures(exposures):
     for i, exp in enumerate(exposures):
         shape = exp.image.array.shape
 
+        # the psf is evaluated in the coordinates of the parent image
         ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        xy0 = exp.getXY0()
+        cen = geom.Point2D(xcen + xy0.getX(), ycen + xy0.getY())
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From bfeb9e2e5a05c770776a087a751f7e28142e43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 07/25] fix: proceed when the fit of the original psfs fails

---
 metadetect/lsst/metadetect.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..68b6771 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -232,6 +232,10 @@ class MetadetectTask(Task):
         metacal_types = config['metacal'].get('types', None)
 
         if config['metacal']['reconv_type'] == 'fitgauss':
+            if psf_stats['flags'] != 0:
+                # cannot determine the reconvolution kernels
+                return None
+
             perband_psf_stats = psf_stats['perband']
         else:
             perband_psf_stats = None
@@ -631,18 +635,21 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
         g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
 
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
     except (BootPSFFailure, GMixRangeError):
         flags = procflags.PSF_FAILURE
+        navg = 0
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From 8eb8618985f30f8dbba89c782a32cac688c85d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 08/25] fix: let the masked fraction exposures be absent

---
 metadetect/lsst/metadetect.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 68b6771..297ab6a 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -485,17 +485,20 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     ----------
     mbexp: lsst.afw.image.MultibandExposure
         The exposures to process
+    mfrac_mbexp: lsst.afw.image.MultibandExposure or None
+        The masked fractions. If None the masked fraction is zero
 
     Returns
     -------
     mfrac: array
+    wgts: list of weights, one per band
     """
     wgts = []
 
     wsum = 0.0
 
     mfrac = None
-    for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
+    for iband, exp in enumerate(mbexp):
         varray = exp.variance.array
         w = np.where(np.isfinite(varray) & (varray > 0))
 
@@ -507,10 +510,15 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wgts.append(wgt)
         wsum += wgt
 
+        if mfrac_mbexp is None:
+            mfrac_image = np.zeros_like(exp.image.array)
+        else:
+            mfrac_image = mfrac_mbexp.singles[iband].image.array
+
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From e880d90302a0e6008d1bbaf868c08aa41901b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 09/25] fix: use the configured stamp size

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index cf8d8e9..6c68863 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1231,10 +1231,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From 05f23ac8ddd1247cc2c3bbc2cdbf4a734bc48c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 10/25] fix: give no sources when the bands cannot be coadded
 for detection

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..e8881fa 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From f1ea9ee0a9b424199f808a2449271270a9dc54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 11/25] fix: use the configured deblender for photometry

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..de0c3c4 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -68,6 +68,7 @@ def run_photometry(
 
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
+        deblender=config['deblender'],
         rng=rng,
     )
     sources, detexp, model_data = dbtask.run(
-- 
2.43.0


From 6b31a77714542a3954f2003efccd66dff0b9e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 12/25] fix: flag sources without a psf instead of failing the
 measurement

---
 metadetect/lsst/measure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e8881fa..5e9bab4 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -28,6 +28,7 @@ from lsst.pex.exceptions import LengthError
 from ..procflags import (
     EDGE_HIT,
     ZERO_WEIGHTS,
+    NO_DATA,
     NO_ATTEMPT,
 )
 from ..fitting import (
@@ -400,6 +401,10 @@ def measure(
             # across the stamp
             LOG.info('%s', err)
             stamp_flags = ZERO_WEIGHTS
+        except util.MissingDataError as err:
+            # the psf could not be evaluated at this location
+            LOG.info('%s', err)
+            stamp_flags = NO_DATA
 
         if stamp_flags != 0:
 
-- 
2.43.0


From b5b3df13d24296ff9f95a9d69bf38d22c644bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 13/25] fix: index the masked fraction image by row, then
 column

---
 metadetect/lsst/metadetect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 297ab6a..3705d96 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -412,7 +412,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From b8406b1eabd5e9d0252ba7870f7c9fdcc7919291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 14/25] fix: give each source the mask bits at its own peak

---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 5e9bab4..3d65a5c 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -362,15 +362,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -378,7 +376,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From a89b1b1c7eb1a93ccdac26a09aa238f18a1f628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:03 +0000
Subject: [PATCH 15/25] fix: use the footprint for stamps without a size

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From 74b0bb8016075b17ae91d19ca8527095079e0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 16/25] fix: leave no band with a partly inserted model

---
 metadetect/lsst/model_subtractor.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index c566a74..9048280 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -127,8 +127,20 @@ class ModelSubtractor(object):
         """
         self.check_source_id(source_id)
 
-        self._add_or_subtract_source(source_id, 'add')
-        # self._add_or_subtract_source_new(source_id, 'add')
+        bbox = self.bboxes[source_id]
+        saved = {
+            band: self.mbexp[band].image[bbox].array.copy()
+            for band in self.bands
+        }
+        try:
+            self._add_or_subtract_source(source_id, 'add')
+            # self._add_or_subtract_source_new(source_id, 'add')
+        except BaseException:
+            # do not leave the model in some of the bands
+            for band in self.bands:
+                self.mbexp[band].image[bbox].array[:, :] = saved[band]
+            raise
+
         try:
             yield self.mbexp
         finally:
-- 
2.43.0


From cc634335a8547967417990637e2919ecd3473817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 17/25] fix: take stamps from the bands of the exposures

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From 3c4b873970222b70e3ab3896cf92fdcf90a4f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 18/25] fix: subtract models from data of a single band

---
 metadetect/lsst/model_subtractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9048280..b86c880 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -452,6 +452,9 @@ class ModelSubtractor(object):
                     bbox = footprint.getBBox()
 
                     heavy = scarletModelToHeavy(source=scl_source, blend=blend)
+                    if len(bands) == 1:
+                        # a plain heavy footprint, not keyed by band
+                        heavy = {bands[0]: heavy}
 
                     for band in bands:
                         heavy[band].subtractFrom(self.mbexp[band].image[bbox])
-- 
2.43.0


From c4782ba8c45c92b72035622dc9a1aa4d6e7320f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 19/25] fix: insert a source in all bands or in none

---
 metadetect/lsst/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 6c68863..80479f4 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -158,8 +158,16 @@ class MultibandNoiseReplacer(object):
         """
         Insert a source
         """
-        for replacer in self.noise_replacers:
-            replacer.insertSource(source_id)
+        ninserted = 0
+        try:
+            for replacer in self.noise_replacers:
+                replacer.insertSource(source_id)
+                ninserted += 1
+        except BaseException:
+            # do not leave the source in some of the bands
+            for replacer in self.noise_replacers[:ninserted]:
+                replacer.removeSource(source_id)
+            raise
 
     def removeSource(self, source_id):
         """
-- 
2.43.0


From e281fc8ccb32a6e8c4e7ad4cf46e672526c424d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 20/25] fix: restore all bands when setting up a noise replacer
 fails

---
 metadetect/lsst/util.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 80479f4..31a6540 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -192,14 +192,19 @@ class MultibandNoiseReplacer(object):
         self.noise_replacers = []
         self.exit_stack = ExitStack()
 
-        for exp in self.mbexp.singles:
-            replacer = ContextNoiseReplacer(
-                exposure=exp,
-                sources=self.sources,
-                rng=self.rng,
-            )
-            self.noise_replacers.append(replacer)
-            self.exit_stack.enter_context(replacer)
+        try:
+            for exp in self.mbexp.singles:
+                replacer = ContextNoiseReplacer(
+                    exposure=exp,
+                    sources=self.sources,
+                    rng=self.rng,
+                )
+                self.exit_stack.enter_context(replacer)
+                self.noise_replacers.append(replacer)
+        except BaseException:
+            # restore the bands that were already replaced
+            self.exit_stack.close()
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From cf483ac35aae14cbfa6b381d63d5be108ea1aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:09 +0000
Subject: [PATCH 21/25] fix: do not write the threshold into the caller's LSST
 configuration

---
 metadetect/lsst/measure.py | 3 ++-
 metadetect/lsst/skysub.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 3d65a5c..41ba92d 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import warnings
 import numpy as np
@@ -291,7 +292,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 79034b0..721506e 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,4 @@
+import copy
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +143,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +188,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 7918986827492641c3612c3ced44ba69c6162855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 22/25] fix: do not coadd one band when others were asked for

---
 metadetect/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index abc3661..c624620 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -520,7 +520,7 @@ def make_coadd_obs(mbobs, shear_bands=None):
     # if we have one input band, then simply
     # return if if the data is consistent
     if nbands == 1:
-        if shear_bands[0] == 0:
+        if all(s == 0 for s in shear_bands):
             return mbobs[0][0], flags
         else:
             flags |= procflags.INCONSISTENT_BANDS
-- 
2.43.0


From f4f586dce55c5be7f4ba68130ab7fe225ff5903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 23/25] fix: do not alter the exposure when an observation
 cannot be converted

---
 metadetect/lsst/util.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 31a6540..8731647 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -717,10 +717,7 @@ def obs2exp(obs, exp=None, copy_mask_from='bmask', copy_psf=False):
         ny, nx = obs.image.shape
         exp = afw_image.ExposureF(nx, ny)
 
-    exp.image.array[:, :] = obs.image
-
-    exp.variance.array[:, :] = np.inf
-
+    # get everything that can fail before altering the exposure
     if copy_mask_from == 'bmask':
         mask = obs.bmask
     elif copy_mask_from == 'ormask':
@@ -729,16 +726,21 @@ def obs2exp(obs, exp=None, copy_mask_from='bmask', copy_psf=False):
         raise RuntimeError(
             f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
         )
-    exp.mask.array[:, :] = mask
-
-    w = np.where(obs.weight > 0)
-    exp.variance.array[w] = 1.0 / obs.weight[w]
 
     if copy_psf:
         psf_image = obs.psf.image
         stack_psf = KernelPsf(
             FixedKernel(afw_image.ImageD(psf_image.astype(float)))
         )
+
+    exp.mask.array[:, :] = mask
+    exp.image.array[:, :] = obs.image
+
+    exp.variance.array[:, :] = np.inf
+    w = np.where(obs.weight > 0)
+    exp.variance.array[w] = 1.0 / obs.weight[w]
+
+    if copy_psf:
         exp.setPsf(stack_psf)
 
     return exp
-- 
2.43.0


From 3fc9320bebbddddc934c8dea577d108388b0c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 24/25] fix: keep the masks of coadds whose multiband data
 cannot be made

---
 metadetect/lsst/util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 8731647..20cb1cb 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -994,9 +994,6 @@ def extract_multiband_coadd_data(coadd_data_list):
         mfrac_exp = coadd_data['coadd_mfrac_exp']
 
         ormasks.append(exp.mask.array.copy())
-        exp.mask.array[:, :] = 0
-        noise_exp.mask.array[:, :] = 0
-        mfrac_exp.mask.array[:, :] = 0
 
         exps.append(exp)
         noise_exps.append(noise_exp)
@@ -1006,6 +1003,15 @@ def extract_multiband_coadd_data(coadd_data_list):
     noise_mbexp = get_mbexp(noise_exps)
     mfrac_mbexp = get_mbexp(mfrac_exps)
 
+    # zero the masks only now that nothing can fail any more, so that they are
+    # not lost.  The pixels of the multiband exposures are copies
+    for exp in exps + noise_exps + mfrac_exps:
+        exp.mask.array[:, :] = 0
+
+    for this_mbexp in (mbexp, noise_mbexp, mfrac_mbexp):
+        for exp in this_mbexp.singles:
+            exp.mask.array[:, :] = 0
+
     return {
         'mbexp': mbexp,
         'noise_mbexp': noise_mbexp,
-- 
2.43.0


From 482a3f86718c1b55cf3a9531e0f14852014ce43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 25/25] fix: exclude pixels of neighbours in colour-dependent
 runs too

With weight_type uberseg the stamps of objects that are measured again on
the observations of their colour were made without the segmentation map, so
the weight of pixels of neighbours was kept there.
---
 metadetect/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index e185a47..9ba3a74 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -412,7 +412,7 @@ class Metadetect(dict):
 
         _result = {}
         for shear_str, shear_mbobs in mcal_res.items():
-            cat, mbobs_list = self._do_detect(
+            cat, _, mbobs_list = self._do_detect(
                 shear_mbobs,
                 det_bands,
             )
@@ -440,7 +440,7 @@ class Metadetect(dict):
                 )
 
             # we first detect and get color of each detection
-            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
+            cat, seg, mbobs_list = self._do_detect(shear_mbobs, det_bands)
             nocolor_data = fit_mbobs_list_wavg(
                 mbobs_list=mbobs_list,
                 fitter=self._fitters[0],
@@ -471,6 +471,8 @@ class Metadetect(dict):
                     cat['x'][i:i+1],
                     cat['y'][i:i+1],
                     cat['box_size'][i:i+1],
+                    seg=seg,
+                    number=cat['number'][i:i+1],
                 )
                 mbm = _medsifier.get_multiband_meds()
                 mbobs_list = mbm.get_mbobs_list(
@@ -787,7 +789,7 @@ class Metadetect(dict):
         )
         logger.info("detect took %s seconds", time.time() - t0)
 
-        return medsifier.cat, mbobs_list
+        return medsifier.cat, medsifier.seg, mbobs_list
 
     def _get_all_metacal(self, mbobs):
         """
-- 
2.43.0

