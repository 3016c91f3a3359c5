From b38cc32a90430b055bea71af772538e0035856b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 001/112] fix: pad_crop accepts numpy integer sizes and keeps
 the input dtype

---
 falco/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..43a2529 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -224,14 +224,15 @@ def pad_crop(arrayIn, outsize, extrapval=0):
     try:
         if len(sh1) != 2:
             raise TypeError('Output dimensions must have 2 elements')
-        if (not isinstance(sh1[0], int)) or (not isinstance(sh1[1], int)):
+        if (not isinstance(sh1[0], int_types)) or \
+                (not isinstance(sh1[1], int_types)):
             raise TypeError('Output dimensions must be integers')
         if (sh1[0] <= 0) or (sh1[1] <= 0):
             raise TypeError('Output dimensions must be positive ' + 'integers')
     except TypeError:
         raise TypeError('outsize must be an iterable')
 
-    arrayOut = extrapval * np.ones(sh1, dtype=arrayIn.dtype)
+    arrayOut = np.full(sh1, extrapval, dtype=arrayIn.dtype)
 
     xneg = min(sh0[1]//2, sh1[1]//2)
     xpos = min(sh0[1] - sh0[1]//2, sh1[1] - sh1[1]//2)
-- 
2.43.0


From 9436c17cdb3b44c8ecab24ca3e9f381c944043be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 002/112] fix: bin_downsample rejects indivisible sizes and
 keeps complex values

---
 falco/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index 43a2529..a4da7fd 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -567,13 +567,13 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
 
     # Bin and average values from the high-res array into the low-res array
-    Aout = np.zeros((ny1, nx1))
+    Aout = np.zeros((ny1, nx1), dtype=np.result_type(Ain.dtype, float))
     for ix in range(nx1):
         for iy in range(ny1):
             Aout[iy, ix] = np.sum(Ain[dsfac*iy:dsfac*(iy+1),
-- 
2.43.0


From b7f3f9e17d4a88c439d1f8217018896d886c4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 003/112] fix: mft_f2p uses the vertical focal-plane sampling
 for the vertical axis

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..23c43e9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From 6408412b9b51c8ed5851a542df8a76fbf61a085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 004/112] fix: ifft2d inverts fft2d for odd-sized arrays too

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 23c43e9..eede15e 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -254,7 +254,7 @@ def fft2d(arrayIn):
 
 def ifft2d(arrayIn):
     check.twoD_array(arrayIn, 'arrayIn', TypeError)
-    return np.fft.ifftshift(np.fft.ifft2(np.fft.fftshift(arrayIn), norm='ortho'))
+    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(arrayIn), norm='ortho'))
 
 
 def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
-- 
2.43.0


From 64fb8a2cbe4794e3c73edc67e633e17b025e39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 005/112] fix: gen_ellipse antialiases every edge pixel and
 applies magFac there too

---
 falco/mask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..e4fecdb 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1699,7 +1699,8 @@ def falco_gen_ellipse(inputs):
         + 1/(radiusY)**2*(np.sin(clockingRadians)*X - np.cos(clockingRadians)*Y)**2
         )
 
-    halfWindowWidth = np.max(np.abs((RHO[1, 0]-RHO[0, 0], RHO[0, 1] - RHO[0, 0])))
+    # Largest possible change in RHO between the center and corner of a pixel
+    halfWindowWidth = 0.5*dx/np.sqrt(2)/(magFac*np.min((radiusX, radiusY)))
     pupil = -1*np.ones(RHO.shape)
     pupil[np.abs(RHO) < radius - halfWindowWidth] = 1
     pupil[np.abs(RHO) > radius + halfWindowWidth] = 0
@@ -1720,7 +1721,7 @@ def falco_gen_ellipse(inputs):
 
         xCenter = X[grayInds[0, iInterior], grayInds[1, iInterior]]
         yCenter = Y[grayInds[0, iInterior], grayInds[1, iInterior]]
-        RHOup = 0.5*np.sqrt(
+        RHOup = 1/magFac*0.5*np.sqrt(
         1/(radiusX)**2*(np.cos(clockingRadians)*(Xup+xCenter) +
                         np.sin(clockingRadians)*(Yup+yCenter))**2
         + 1/(radiusY)**2*(np.sin(clockingRadians)*(Xup+xCenter) -
-- 
2.43.0


From ba38128efb69555501c36bff680b2cbde56c851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 006/112] fix: clip polygons correctly at the edges of the
 wavefront array

---
 falco/proper/prop_irregular_polygon.py | 12 ++++++------
 falco/proper/prop_polygon.py           | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 8604703..22e1a97 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -125,14 +125,14 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[leftnext] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[rightnext] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -157,9 +157,9 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
                 if (xrightpix - xleftpix) > 1:
                     if xleftpix+1 < 0:
@@ -168,9 +168,9 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
-                        imax = xrightpix
+                        imax = max(xrightpix, 0)
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
             else:
                 if xleftpix >= 0 and xleftpix < ngrid:
diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 321df7d..849766f 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -140,7 +140,7 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     else:
         imin = int(np.round(np.min(yp)))
         
-    if int(np.round(np.max(yp))) > ngrid:
+    if int(np.round(np.max(yp))) >= ngrid:
         imax = ngrid            
     else:
         imax = int(np.round(np.max(yp))) + 1   
@@ -154,14 +154,14 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[leftnext] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[rightnext] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -186,9 +186,9 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
                 if (xrightpix - xleftpix) > 1:
                     if xleftpix+1 < 0:
@@ -197,9 +197,9 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
-                        imax = xrightpix
+                        imax = max(xrightpix, 0)
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
             else:
                 if xleftpix >= 0 and xleftpix < ngrid:
-- 
2.43.0


From d333b6bd9c727ecbc9fcb985512f4d9165c56372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 007/112] fix: software mask array holds the corners of a
 clocked square region

---
 falco/mask.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index e4fecdb..740a621 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -609,7 +609,10 @@ def falco_gen_SW_mask(inputs):
     xiOffset = inputs.get("xiOffset", 0.)
     etaOffset = inputs.get("etaOffset", 0.)
     if darkHoleShape in {'square', 'rect', 'rectangle'}:
-        maxExtent = np.max((1, 2*np.abs(np.cos(np.radians(clockAngDeg)))))
+        clockRad = np.radians(clockAngDeg)
+        maxExtent = np.max((1, 2*np.abs(np.cos(clockRad)),
+                            np.abs(np.cos(clockRad)) +
+                            np.abs(np.sin(clockRad))))
     else:
         maxExtent = 1
     minFOVxi = inputs.get("xiFOV", maxExtent*FOV + np.abs(xiOffset))
-- 
2.43.0


From e1f42f0a845dee7eb11113afaf3345b07e549800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 008/112] fix: scoring region uses the vertical offset of the
 dark hole

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..880597a 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1122,7 +1122,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From 71ea2ec0ea3a1557bbcdd56eda40aecca227cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 009/112] fix: count each repeated wavelength's weight once for
 narrow bands

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index 880597a..d0a8c91 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -558,7 +558,7 @@ def falco_set_spectral_properties(mp):
     for idup in range(len(duplicate_inds)):
         wvl = lambdas[duplicate_inds[idup]]
         weight = lambda_weights_all[duplicate_inds[idup]]
-        ind = np.where(np.abs(mp.full.lambdas-wvl) <= 1e-11)
+        ind = np.argmin(np.abs(mp.full.lambdas-wvl))
         mp.full.lambda_weights_all[ind] = mp.full.lambda_weights_all[ind] + weight
     mp.full.NlamUnique = len(inds_unique)
     pass
-- 
2.43.0


From 967855b7880f2ceec287c391c2329cd69eb135cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 010/112] fix: accept controlled Zernike modes in any order

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index d0a8c91..ed65a24 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -591,7 +591,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif len(mp.jac.zerns) != len(set(mp.jac.zerns)):
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -602,7 +602,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From a4c2d2cc48fb71ee0ca46a48a556ce06042a5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 011/112] fix: field and index syntax of config objects see the
 same values

---
 falco/config/Object.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/falco/config/Object.py b/falco/config/Object.py
index 4c2244a..eac255f 100644
--- a/falco/config/Object.py
+++ b/falco/config/Object.py
@@ -19,6 +19,9 @@ class Object:
         self.__dict__ = {"data": data}
 
     def merge(self, **kwargs):
+        for key in kwargs:
+            if key in self.__dict__ and key != 'data':
+                self.data[key] = self.__dict__.pop(key)
         deepmerge.always_merger.merge(self.data, kwargs)
 
     def __getattr__(self, item):
@@ -39,10 +42,15 @@ class Object:
         return self.data[item]
 
     def __getitem__(self, item):
+        # Fields assigned as attributes take precedence, just as for `obj.field`.
+        if item in self.__dict__:
+            return self.__dict__[item]
         return self.__getattr__(item)
 
     def __setitem__(self, key, value):
         self.data[key] = value
+        if key != 'data':
+            self.__dict__.pop(key, None)
 
     def __eq__(self, other):
         if not isinstance(other, Object):
-- 
2.43.0


From e3b950a67d7691cb7a87b19b5f77ea851e7e12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 012/112] fix: loading a config leaves the global yaml loader
 unchanged

---
 falco/config/yaml_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..8a9e9aa 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -38,7 +38,10 @@ def _eval_constructor(eval_globals, eval_locals):
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
     """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    # Use a new class so that the constructors don't leak into other yaml users.
+    class loader(yaml.SafeLoader):
+        pass
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From a4668776cbfb44a8d619a95c93dbecc4d2851d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 013/112] fix: configs loaded with the same context don't share
 their parameters

---
 falco/config/ModelParameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..a166243 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -1,4 +1,5 @@
 # import copy
+from collections import ChainMap
 import math
 from pathlib import Path
 
@@ -245,9 +246,8 @@ class ModelParameters(Object):
 
         result = ModelParameters()
 
-        if context is None:
-            context = {}
-        context['mp'] = result
+        # Use a new mapping so that configs sharing a context don't share `mp`.
+        context = ChainMap({'mp': result}, {} if context is None else context)
 
         data = load_from_str(
             text,
-- 
2.43.0


From dfa0b7ea1f7f04ba5a3c61cf877aeb2b4d932777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 014/112] fix: poke cube is centered correctly for interpixel
 centering

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..491ac3d 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -764,7 +764,8 @@ def gen_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From 87e0e11a3a380fef35de334c4dd2575615722123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 015/112] fix: differentiable DM model is not quantized in
 shift or sampling and handles odd actuator counts

---
 falco/diff_dm.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 4290949..8482aa6 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -158,8 +158,11 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*int((dm.xc - dm.Nact//2 + 0.5) * inf_mag)
-    shifty = -1*int((dm.yc - dm.Nact//2 + 0.5) * inf_mag)
+    # The DM class puts the center of an even-sized lattice on a half sample if
+    # there is an odd number of samples per actuator.
+    lattice_offset = 0.5 if (dm.Nact % 2 == 0 and inf_mag % 2 == 1) else 0.
+    shiftx = -1*(dm_xc - (dm.Nact - 1)/2) * inf_mag + lattice_offset
+    shifty = -1*(dm_yc - (dm.Nact - 1)/2) * inf_mag + lattice_offset
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -386,10 +389,7 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     cy, cx = [s//2 for s in shape]
     Nactx, Nacty = Nact
     skip_samples_x, skip_samples_y = sep
-    # python trick; floor division (//) rounds to negative inf, not zero
-    # because FFT grid alignment biases things to the left, if Nact is odd
-    # we want more on the negative side;
-    # this will make that so
+    # if Nact is odd, the central actuator is on the FFT center of the array
     offx = 0
     offy = 0
     # TODO: does falco have an is_odd?  Did not see it in util
@@ -398,10 +398,10 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     if Nacty % 2 == 0:
         offy = skip_samples_y // 2
 
-    neg_extreme_x = cx + -Nactx//2 * skip_samples_x + offx
-    neg_extreme_y = cy + -Nacty//2 * skip_samples_y + offy
-    pos_extreme_x = cx + Nactx//2 * skip_samples_x + offx
-    pos_extreme_y = cy + Nacty//2 * skip_samples_y + offy
+    neg_extreme_x = cx - (Nactx//2) * skip_samples_x + offx
+    neg_extreme_y = cy - (Nacty//2) * skip_samples_y + offy
+    pos_extreme_x = neg_extreme_x + Nactx * skip_samples_x
+    pos_extreme_y = neg_extreme_y + Nacty * skip_samples_y
 
     ix = slice(neg_extreme_x, pos_extreme_x, skip_samples_x)
     iy = slice(neg_extreme_y, pos_extreme_y, skip_samples_y)
@@ -435,7 +435,8 @@ def fourier_resample(f, zoom):
     F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
     # F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f)))
 
-    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, 1, 1)
+    # the output size is rounded, but the sampling must not be
+    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, n*zoom[1]/N, m*zoom[0]/M)
     fprime = imft2_core(F, Mx, My).real
     fprime *= np.sqrt((zoom[0]*zoom[1]))
     # fprime *= np.sqrt((zoom[0]*zoom[1]))/(np.sqrt(f.size))
-- 
2.43.0


From ec442258af6f9ee72c9181e385decac45721b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 016/112] fix: backpropagation of the differentiable DM model
 is the adjoint of its rendering

---
 falco/diff_dm.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 8482aa6..771e33e 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -445,6 +445,22 @@ def fourier_resample(f, zoom):
     return fprime
 
 
+def fourier_resample_adjoint(fprime, zoom, shape):
+    """Apply the adjoint of fourier_resample, for an original array shape."""
+    if zoom == 1:
+        return fprime
+
+    m, n = shape
+    M, N = fprime.shape
+
+    Mx, My = setup_mft_matricies_scalars((M, N), shape, n*zoom/N, m*zoom/M)
+    F = mft2_core(fprime, Mx, My)
+    f = fftutils.fftshift(fftutils.ifft2(fftutils.ifftshift(F), norm='ortho')).real
+    f *= zoom
+
+    return f
+
+
 def forward_ft_unit(dx, samples, shift=True):
     """Compute the units resulting from a fourier transform.
 
@@ -609,6 +625,9 @@ class DM:
             fwd, rev = prepare_fwd_reverse_projection_coordinates(s, rot, use_zyx_order)
             self.projx, self.projy = fwd
             self.invprojx, self.invprojy = rev
+            # foreshortening of the surface area by the projection
+            R = make_rotation_matrix(rot, use_zyx_order)
+            self.area_ratio = np.abs(np.linalg.det(R[:2, :2]))
 
         # shift data
         if shift[0] != 0 or shift[1] != 0:
@@ -724,9 +743,7 @@ class DM:
         """Gradient backpropagation for self.render."""
         protograd = util.pad_crop(protograd, self.Nintermediate)
         if self.upsample != 1:
-            upsample = self.ifn.shape[0]/protograd.shape[0]
-            protograd = fourier_resample(protograd, upsample)
-            protograd /= upsample**2
+            protograd = fourier_resample_adjoint(protograd, self.upsample, self.ifn.shape)
 
         if wfe:
             protograd *= (2*self.obliquity)
@@ -734,6 +751,7 @@ class DM:
         # return protograd
         if self.needs_rot:
             protograd = warp(protograd, self.invprojx, self.invprojy)
+            protograd *= self.area_ratio
 
         # return protograd
         in_actuator_space = apply_precomputed_transfer_function(protograd, np.conj(self.tf))
-- 
2.43.0


From 30794142c3407434d3f37873e8d5c22c2e9a2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 017/112] fix: differentiable DM model is rebuilt for a new
 sampling or alignment

---
 falco/dm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 491ac3d..12e2746 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -100,8 +100,14 @@ def gen_surf_from_act(dm, dx, Nout):
             raise ValueError('invalid value of dm.orientation')
 
     if dm.useDifferentiableModel:
-        if not hasattr(dm, "differentiableModel"):  # or dm.differentiableModel.Nout!=Narray:
-            # Initialize the model object if this is the first time
+        # All the settings built into the model object
+        modelSettings = (dx, Nout, cshift, dm.xc, dm.yc, dm.dm_spacing, dm.xtilt,
+                         dm.ytilt, dm.zrot, flagXYZ, dm.inf_sign, dm.inf_fn)
+        if not hasattr(dm, "differentiableModel") or \
+                getattr(dm, "differentiableModelSettings", None) != modelSettings:
+            # Initialize the model object if this is the first time or if it was
+            # made for other settings (e.g., for the other optical model)
+            dm.differentiableModelSettings = modelSettings
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-- 
2.43.0


From a08122f013ba3e5c31d6b85d77fb6d73747f85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 018/112] fix: actuators past a voltage bound are held at that
 bound in total voltage

---
 falco/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 12e2746..0f9c014 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -923,13 +923,13 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = (dm.Vmin - dm.biasMap*np.ones(dm.V.shape)).flatten()[new_inds]  # dm.V is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = (dm.Vmax - dm.biasMap*np.ones(dm.V.shape)).flatten()[new_inds]  # dm.V is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From 41c4bc8dfd47484f99e596401bc79d02453c3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 019/112] fix: tied actuators can be given as a float array
 like pinned ones

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 0f9c014..ec5231f 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -950,7 +950,8 @@ def enforce_constraints(dm):
     # In each pair of tied actuators, assign the command for the first actuator to that of the 2nd actuator
     if (dm.tied.size > 0):
         Vflat = dm.V.flatten()
-        Vflat[dm.tied[:, 1]] = Vflat[dm.tied[:, 0]]
+        tied = dm.tied.astype(int)
+        Vflat[tied[:, 1]] = Vflat[tied[:, 0]]
         dm.V = Vflat.reshape(dm.V.shape)
 
     return dm
-- 
2.43.0


From fcf3333495b68ef99c2c91890304103c74b8b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 020/112] fix: neighbor rule works when violated, is met on
 output, and leaves its input alone

---
 falco/dm.py | 83 +++++++++++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index ec5231f..eae03e1 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -827,11 +827,11 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
 
     """
     check.twoD_array(Vin, 'Vin', TypeError)
-    check.real_scalar(Vlim, 'Vlim', TypeError)
+    check.real_nonnegative_scalar(Vlim, 'Vlim', TypeError)
     check.positive_scalar_integer(Nact, 'Nact', TypeError)
 
-    Vout = Vin  # Initialize output voltage map
-    indPair = np.zeros((0, 2))  # Initialize the paired indices list. [nPairs x 2]
+    Vout = np.array(Vin, dtype=float)  # Initialize output voltage map
+    indPair = np.zeros((0, 2), dtype=int)  # Initialize the paired indices list. [nPairs x 2]
 
     kx1 = np.array([[0, 1], [1, 1], [1, 0]])              # R1-C1
     kx2 = np.array([[0, 1], [1, 1], [1, 0], [1, -1]])         # R1, C2 - C47
@@ -842,48 +842,55 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
     kx7 = np.array([[-1, 1], [0, 1]])                       # R48, C1 - C47
     kx8 = np.array([[-1, -1]])                             # R48, C48
 
-    for jj in range(Nact):            # Row
-        for ii in range(Nact):        # Col
-
-            if jj == 0:
-                if ii == 0:
-                    kx = kx1
-                elif ii < Nact-1:
-                    kx = kx2
-                else:
-                    kx = kx3
-            elif jj < Nact-1:
-                if ii == 0:
-                    kx = kx4
-                elif ii < Nact-1:
-                    kx = kx5
+    # Fixing one pair can break the rule for another, so repeat until it is met
+    tol = 1e-6*np.ptp(Vout)
+    flagViolated = True
+    while flagViolated:
+        flagViolated = False
+        for jj in range(Nact):            # Row
+            for ii in range(Nact):        # Col
+
+                if jj == 0:
+                    if ii == 0:
+                        kx = kx1
+                    elif ii < Nact-1:
+                        kx = kx2
+                    else:
+                        kx = kx3
+                elif jj < Nact-1:
+                    if ii == 0:
+                        kx = kx4
+                    elif ii < Nact-1:
+                        kx = kx5
+                    else:
+                        kx = kx6
                 else:
-                    kx = kx6
-            else:
-                if ii < Nact-1:
-                    kx = kx7
-                else:
-                    kx = kx8
+                    if ii < Nact-1:
+                        kx = kx7
+                    else:
+                        kx = kx8
+
+                kr = jj + kx[:, 0]
+                kc = ii + kx[:, 1]
+                nNbr = kr.size  # length(kr); # Number of neighbors
 
-            kr = jj + kx[:, 0]
-            kc = ii + kx[:, 1]
-            nNbr = kr.size  # length(kr); # Number of neighbors
+                if nNbr >= 1:
+                    for iNbr in range(nNbr):
 
-            if nNbr >= 1:
-                for iNbr in range(nNbr):
+                        a1 = Vout[jj, ii] - Vout[kr[iNbr], kc[iNbr]]  # Compute the delta voltage
 
-                    a1 = Vout[jj, ii] - Vout[kr[iNbr], kc[iNbr]]  # Compute the delta voltage
+                        if (np.abs(a1) > Vlim + tol):  # If neighbor rule is violated
 
-                    if (np.abs(a1) > Vlim):  # If neighbor rule is violated
+                            flagViolated = True
+                            indLinCtr = jj*Nact + ii  # linear index of center actuator
+                            indLinNbr = kr[iNbr]*Nact + kc[iNbr]  # linear index of neigboring actuator
+                            indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
 
-                        indLinCtr = (ii-1)*Nact + jj  # linear index of center actuator
-                        indLinNbr = (kc[iNbr]-1)*Nact + kr[iNbr]  # linear index of neigboring actuator
-                        indPair = np.array([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
-                        indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
+                            fx = (np.abs(a1) - Vlim) / 2.
+                            Vout[jj, ii] = Vout[jj, ii] - np.sign(a1)*fx
+                            Vout[kr[iNbr], kc[iNbr]] = Vout[kr[iNbr], kc[iNbr]] + np.sign(a1)*fx
 
-                        fx = (np.abs(a1) - Vlim) / 2.
-                        Vout[jj, ii] = Vout[jj, ii] - np.sign(a1)*fx
-                        Vout[kr[iNbr], kc[iNbr]] = Vout[kr[iNbr], kc[iNbr]] + np.sign(a1)*fx
+    indPair = np.unique(indPair, axis=0)
 
     return Vout, indPair
 
-- 
2.43.0


From 0f86aff4577c7da019af308b1c324e46087da58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 021/112] fix: surface fit returns commands in the orientation
 that makes the surface

---
 falco/dm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index eae03e1..9dd3537 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1037,6 +1037,15 @@ def fit_surf_to_act(dm, surfaceToFit):
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
+    # Undo the orientation that gen_surf_from_act() applies to the height map
+    orientation = getattr(dm, 'orientation', 'rot0').lower()
+    if orientation not in ('rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0',
+                           'flipxrot90', 'flipxrot180', 'flipxrot270'):
+        raise ValueError('invalid value of dm.orientation')
+    heightAtActRes = np.rot90(heightAtActRes, -int(orientation.split('rot')[1])//90)
+    if orientation.startswith('flipx'):
+        heightAtActRes = np.fliplr(heightAtActRes)
+
     Vout = heightAtActRes/dm.VtoH
     Vout[np.isinf(Vout)] = 0
 
-- 
2.43.0


From ebd82769d0cb5877f9dd73bff0b02f13dbee52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 022/112] fix: surface fit by prop_fit_dm works for negative
 influence functions

---
 falco/dm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 9dd3537..4ee0f3b 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1033,7 +1033,9 @@ def fit_surf_to_act(dm, surfaceToFit):
         heightAtActRes = fit_surf_with_dm_lsq_wrapper(dm, gridDerotAtActRes)  # Creates the prefilter if it doesn't exist
         # heightAtActRes = fit_surf_with_dm_lsq(gridDerotAtActRes, dm.act_prefilter)  # Assumes prefilter exists already
     elif dm.surfFitMethod.lower() == 'proper':
-        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(gridDerotAtActRes, infFuncAtActRes)
+        # prop_fit_dm() converges only for a positive influence function
+        infSign = np.sign(infFuncAtActRes[N2//2, N2//2])
+        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(infSign*gridDerotAtActRes, infSign*infFuncAtActRes)
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
-- 
2.43.0


From 539dc69f7dbf98085a4db83c2b3cd39831abf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 023/112] fix: interpixel centering of a tilted DM is along the
 pixel axes

---
 falco/dm.py | 59 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 4ee0f3b..12dbf5a 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -52,12 +52,8 @@ def gen_surf_from_act(dm, dx, Nout):
 
     # Adjust the centering of the output DM surface. The shift needs to be in
     # units of actuators, not meters, for prop_dm.m.
-    Darray = Nout*dx  # dm.NdmPad*dx
     Narray = Nout  # dm.NdmPad
-    if dm.centering == 'interpixel':
-        cshift = -Darray/2./Narray/dm.dm_spacing
-    elif dm.centering == 'pixel':
-        cshift = 0
+    xcShift, ycShift = _centering_shift(dm, dx)
 
     pupil_ratio = 1  # beam diameter fraction
     wl_dummy = 1e-6  # dummy value needed to initialize PROPER (meters)
@@ -101,7 +97,7 @@ def gen_surf_from_act(dm, dx, Nout):
 
     if dm.useDifferentiableModel:
         # All the settings built into the model object
-        modelSettings = (dx, Nout, cshift, dm.xc, dm.yc, dm.dm_spacing, dm.xtilt,
+        modelSettings = (dx, Nout, dm.centering, dm.xc, dm.yc, dm.dm_spacing, dm.xtilt,
                          dm.ytilt, dm.zrot, flagXYZ, dm.inf_sign, dm.inf_fn)
         if not hasattr(dm, "differentiableModel") or \
                 getattr(dm, "differentiableModelSettings", None) != modelSettings:
@@ -111,13 +107,13 @@ def gen_surf_from_act(dm, dx, Nout):
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-xcShift, dm.yc-ycShift, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
             else:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-xcShift, dm.yc-ycShift, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
@@ -134,13 +130,13 @@ def gen_surf_from_act(dm, dx, Nout):
     else:
         if flagXYZ:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-xcShift, dm.yc-ycShift, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
         else:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-xcShift, dm.yc-ycShift, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
@@ -150,6 +146,42 @@ def gen_surf_from_act(dm, dx, Nout):
     return DMsurf
 
 
+def _centering_shift(dm, dx):
+    """
+    Compute the shift of the DM that centers its surface in the output array.
+
+    The surface moves by half a pixel of the output array for interpixel
+    centering. That is along the pixel axes, so it has to be projected back onto
+    the axes of a tilted or rotated DM.
+
+    Parameters
+    ----------
+    dm : ModelParameters
+        Structure containing parameter values for the DM
+    dx : float
+        Pixel width [meters] at the DM plane
+
+    Returns
+    -------
+    xcShift, ycShift : float
+        Shifts along the DM's x- and y-axes [actuator widths]
+
+    """
+    if dm.centering != 'interpixel':
+        return 0., 0.
+
+    a, b, g = radians(dm.xtilt), radians(dm.ytilt), radians(dm.zrot)
+    if getattr(dm, 'flagZYX', False):
+        m = np.array([[cos(b)*cos(g), cos(g)*sin(a)*sin(b)-cos(a)*sin(g)],
+                      [cos(b)*sin(g), cos(a)*cos(g)+sin(a)*sin(b)*sin(g)]])
+    else:
+        m = np.array([[cos(b)*cos(g), -cos(b)*sin(g)],
+                      [cos(a)*sin(g)+sin(a)*sin(b)*cos(g), cos(a)*cos(g)-sin(a)*sin(b)*sin(g)]])
+    halfPixel = dx/2./dm.dm_spacing
+
+    return np.linalg.solve(m.T, np.array([-halfPixel, -halfPixel]))
+
+
 def discretize_surf(dm, HminStepMethod):
     """
     Discretize the DM commands used to make the DM surface map.
@@ -1013,16 +1045,15 @@ def fit_surf_to_act(dm, surfaceToFit):
     elif nSurface > dm.Nact:
         # Adjust the centering of the output DM surface. The shift needs to be
         # in units of actuators, not meters
-        wArray = nSurface*dm.dx
-        cshift = -wArray/2./nSurface/dm.dm_spacing if(dm.centering == 'interpixel') else 0.
+        xcShift, ycShift = _centering_shift(dm, dm.dx)
         if flagXYZ:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-xcShift, dm.yc-ycShift,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
         else:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-xcShift, dm.yc-ycShift,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
 
-- 
2.43.0


From 3555a1c980ed1e7cc0952feffb32bcf62883d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 024/112] fix: pinned actuators keep their values when
 commanded past a voltage bound

---
 falco/dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 12dbf5a..c19e1c8 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -962,12 +962,14 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.setdiff1d(new_inds, dm.pinned.astype(int))  # pinned actuators keep their values
     new_vals = (dm.Vmin - dm.biasMap*np.ones(dm.V.shape)).flatten()[new_inds]  # dm.V is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.setdiff1d(new_inds, dm.pinned.astype(int))  # pinned actuators keep their values
     new_vals = (dm.Vmax - dm.biasMap*np.ones(dm.V.shape)).flatten()[new_inds]  # dm.V is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
-- 
2.43.0


From 5cfea07965d5bf94050a648a9000fb4362eb54cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 025/112] fix: default influence function file is found from
 any working directory

---
 falco/diff_dm.py | 2 +-
 falco/dm.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 771e33e..4936f05 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -116,7 +116,7 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     xc_inf = nx_inf // 2
     yc_inf = ny_inf // 2
 
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
diff --git a/falco/dm.py b/falco/dm.py
index c19e1c8..cc8caae 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -379,7 +379,7 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     # dx_inf = 0.1e-3  # influence function spacing in meters
     # dx_dm_inf = 1.0e-3  # nominal spacing between DM actuators in meters
     # inf_mag = 10
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
@@ -1266,7 +1266,7 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
     # dx_dm_inf = 1.e-3  # spacing between DM actuators in meters assumed by influence function
     # inf_mag = 10
 
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
-- 
2.43.0


From 7c9c0d5c6d9e75e605f3593cf7bfcdb277a9eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 026/112] fix: prop_fit_dm reports the surface of the commands
 it returns

---
 falco/proper/prop_fit_dm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/proper/prop_fit_dm.py b/falco/proper/prop_fit_dm.py
index bd1463a..36fd316 100644
--- a/falco/proper/prop_fit_dm.py
+++ b/falco/proper/prop_fit_dm.py
@@ -65,6 +65,7 @@ def prop_fit_dm(dm_z, inf_kernel):
     # If fit diverged, use the result from the previous iteration
     if e > e0:
         dm_z_command = last_good_dm
+        dm_surface = convolve(dm_z_command, inf_kernel)
         
     return (dm_z_command, dm_surface)
         
-- 
2.43.0


From cf073cb73ecc2a8b808042e72940e5f492a39970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 027/112] fix: full model of the HLC uses the FPM of the
 wavelength being propagated

---
 falco/hlc.py          |  6 +++---
 falco/model/models.py | 18 +++++++-----------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..9deb07c 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -43,10 +43,10 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
         # Index of the wavelength in mp.sbp_centers
         ilam = si
     elif modelType.lower() == 'full':
-        # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
+        # size = (Ndiel,Nmetal,len(mp.full.lambdas))
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas
+        ilam = np.argmin(np.abs(mp.full.lambdas - mp.full.lambdasMat[si, wi]))
     else:
         raise ValueError('modelType must specify full or compact model.')
 
diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..aa6887a 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -103,18 +103,14 @@ def full(mp, modvar, isNorm=True):
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-    if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-        # Weird indexing is because interior wavelengths at
-        # edges of sub-bands are the same, and the fpmCube
-        # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
-    elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
-        ilam = modvar.wpsbpIndex
-    elif mp.Nwpsbp == 1:
-        ilam = modvar.sbpIndex
-
     if mp.coro.upper() == 'HLC':
+        # Interior wavelengths at the edges of sub-bands are the same, and the
+        # fpmCube contains only the minimal set of masks (one per unique
+        # wavelength).
+        ilam = np.argmin(np.abs(
+            mp.full.lambdas -
+            mp.full.lambdasMat[modvar.sbpIndex, modvar.wpsbpIndex]))
+
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
                 mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
-- 
2.43.0


From 615330b1a5cfc84c5eee0d8eed49382a1c559df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 028/112] fix: Zernike modes have the same complex field in the
 full model and Jacobian as in the compact model

---
 falco/model/jacobians.py | 2 +-
 falco/model/models.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index cc91428..b0a0249 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -114,7 +114,7 @@ def precomp(mp):
             zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(
                 mp.P1.compact.Nbeam, mp.centering, indsZnoll))
             zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
-            Ein *= zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[
+            Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[
                 mp.jac.zerns == modvar.zernIndex]
 
         """ Masks and DM surfaces """
diff --git a/falco/model/models.py b/falco/model/models.py
index aa6887a..e6bdfc4 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -99,8 +99,8 @@ def full(mp, modvar, isNorm=True):
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.full.Narr)
-        Ein = Ein*zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
-                                                     modvar.zernIndex]
+        Ein = Ein*zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
+                                                        modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
     if mp.coro.upper() == 'HLC':
-- 
2.43.0


From 34ce044bf75ccea8054683b096cd825907c3dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 029/112] fix: wavelength-scaled FPM of a Lyot coronagraph
 keeps the Lyot plane sampling

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index e6bdfc4..94b7ba8 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -305,8 +305,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
                                            fpmScaleFac*mp.F3.full.dxi,
-                                           mp.F3.full.deta,
-                                           fpmScaleFac*mp.P4.full.dx,
+                                           fpmScaleFac*mp.F3.full.deta,
+                                           mp.P4.full.dx,
                                            mp.P4.full.Narr, mp.centering)
         # Babinet's principle at P4
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
-- 
2.43.0


From 06a5617cef23431bcc5247cbcfcabba798da2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 030/112] fix: a chromatic vortex (array of charges) can be
 propagated

---
 falco/mask.py            | 35 +++++++++++++++++++++++++++-
 falco/model/jacobians.py | 14 +----------
 falco/model/models.py    | 50 +++-------------------------------------
 falco/prop.py            |  2 +-
 4 files changed, 39 insertions(+), 62 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index 740a621..3d3b842 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 from numpy import cos, sin
-from scipy.interpolate import RectBivariateSpline
+from scipy.interpolate import RectBivariateSpline, interp1d
 from scipy.ndimage import rotate
 
 import falco.proper as proper
@@ -1626,6 +1626,39 @@ def falco_gen_pupil_customHex(inputs):
 #     return pupil
 
 
+def get_vortex_charge(mp, wvl):
+    """
+    Return the charge of the vortex FPM at the given wavelength.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters. mp.F3.VortexCharge is
+        either a single value (an achromatic mask) or an array of charges at
+        the wavelengths mp.F3.VortexCharge_lambdas (a chromatic mask), which
+        is linearly interpolated and extrapolated.
+    wvl : float
+        Wavelength of light [meters]
+
+    Returns
+    -------
+    charge : int, float
+        Charge of the vortex mask
+    """
+    if isinstance(mp.F3.VortexCharge, np.ndarray):
+        if mp.F3.VortexCharge.size == 1:
+            return mp.F3.VortexCharge.item()
+        return interp1d(mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
+                        kind='linear', fill_value='extrapolate')(wvl).item()
+
+    elif isinstance(mp.F3.VortexCharge, (int, float)):
+        return mp.F3.VortexCharge
+
+    else:
+        raise TypeError(
+            'mp.F3.VortexCharge must be an int, float, or numpy ndarray.')
+
+
 def falco_gen_vortex_mask(charge, N):
     """
     Generate a vortex phase mask.
diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index b0a0249..2c7f3fe 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -65,19 +65,7 @@ def precomp(mp):
 
         if mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge, 'linear', 'extrap')
-            elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be an int, float, or numpy ndarray.")
+            charge = falco.mask.get_vortex_charge(mp, wvl)
 
             # Array size for planes P3, F3, and P4
             Nfft1 = int(2**falco.util.nextpow2(np.max(np.array([mp.dm1.compact.NdmPad, minPadFacVortex*mp.dm1.compact.Nbox])))) # Don't crop--but do pad if necessary.
diff --git a/falco/model/models.py b/falco/model/models.py
index 94b7ba8..2d65158 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -367,22 +367,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
 
     elif mp.coro.upper() in ('VORTEX', 'VC'):
         # Get FPM charge
-        if isinstance(mp.F3.VortexCharge, np.ndarray):
-            # Passing an array for mp.F3.VortexCharge with
-            # corresponding wavelengths mp.F3.VortexCharge_lambdas
-            # represents a chromatic vortex FPM
-            if mp.F3.VortexCharge.size == 1:
-                charge = mp.F3.VortexCharge
-            else:
-                np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
-                          'linear', 'extrap')
-
-        elif isinstance(mp.F3.VortexCharge, (int, float)):
-            # single value indicates fully achromatic mask
-            charge = mp.F3.VortexCharge
-        else:
-            raise TypeError("mp.F3.VortexCharge must be an int, float, or\
-                            numpy ndarray.")
+        charge = falco.mask.get_vortex_charge(mp, wvl)
         EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.full.Nbeam/2., 0.3, 5)
         EP4 = pad_crop(EP4, mp.P4.full.Narr)
 
@@ -547,21 +532,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
 
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
-
-            elif isinstance(mp.F3.VortexCharge, (int, float)):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be int, float or numpy ndarray.")
+            charge = falco.mask.get_vortex_charge(mp, wvl)
 
             EP3_grad = falco.prop.mft_p2v2p(EP4_grad, charge, mp.P1.compact.Nbeam/2., 0.3, 5, reverseGradient=True)
 
@@ -926,22 +897,7 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
 
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
-
-            elif isinstance(mp.F3.VortexCharge, (int, float)):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be int, float or numpy\
-                                ndarray.")
+            charge = falco.mask.get_vortex_charge(mp, wvl)
 
             EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.compact.Nbeam/2., 0.3, 5)
             # There is one relay inherent to falco.prop.mft_p2v2p.m
diff --git a/falco/prop.py b/falco/prop.py
index eede15e..b8ac212 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -287,7 +287,7 @@ def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False
 
     """
     check.twoD_array(pupilPre, 'pupilPre', TypeError)
-    check.scalar_integer(charge, 'charge', TypeError)
+    check.real_scalar(charge, 'charge', TypeError)
     check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
     check.real_positive_scalar(inVal, 'inVal', TypeError)
     check.real_positive_scalar(outVal, 'outVal', TypeError)
-- 
2.43.0


From b3f4adf68cb6f62a596e11eef40313cd2cd4c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 031/112] fix: optical models accept the DM wavefront error
 maps enabled by mp.flagDMwfe

---
 falco/model/jacobians.py | 16 ++++++++--------
 falco/model/models.py    | 17 ++++++++++++-----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 2c7f3fe..7366f0a 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -140,11 +140,11 @@ def precomp(mp):
         # This block is for BMC surface error testing
         if mp.flagDMwfe:  # if(mp.flagDMwfe && (mp.P1.full.Nbeam==mp.P1.compact.Nbeam))
             if any(mp.dm_ind == 1):
-                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm1WFE = np.ones((NdmPad, NdmPad))
             if any(mp.dm_ind == 2):
-                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm2WFE = np.ones((NdmPad, NdmPad))
         else:
@@ -319,11 +319,11 @@ def lyot(mp, imode, idm, iact):
     # This block is for BMC surface error testing
     if mp.flagDMwfe:  # if(mp.flagDMwfe && (mp.P1.full.Nbeam==mp.P1.compact.Nbeam))
         # if any(mp.dm_ind == 1):
-        #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, 'extrapval', 0))
+        #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
-            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -762,12 +762,12 @@ def vortex(mp, imode, idm, iact):
     if mp.flagDMwfe:
         # if any(mp.dm_ind == 1):
         #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe,
-        #                                              NdmPad, 'extrapval', 0))
+        #                                              NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -1086,12 +1086,12 @@ def no_fpm(mp, imode, idm, iact):
     if mp.flagDMwfe:
         # if any(mp.dm_ind == 1):
         #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe,
-        #                                              NdmPad, 'extrapval', 0))
+        #                                              NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
diff --git a/falco/model/models.py b/falco/model/models.py
index 2d65158..9489c0b 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -253,9 +253,16 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         DM2stop = np.ones((NdmPad, NdmPad))
 
     if mp.flagDMwfe:
-        pass
-        # if(any(mp.dm_ind==1));  Edm1WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.wfe,NdmPad,'extrapval',0)); else; Edm1WFE = ones(NdmPad); end
-        # if(any(mp.dm_ind==2));  Edm2WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.wfe,NdmPad,'extrapval',0)); else; Edm2WFE = ones(NdmPad); end
+        if any(mp.dm_ind == 1):
+            Edm1WFE = np.exp(2*np.pi*1j/wvl *
+                             pad_crop(mp.dm1.wfe, NdmPad, extrapval=0))
+        else:
+            Edm1WFE = np.ones((NdmPad, NdmPad))
+        if any(mp.dm_ind == 2):
+            Edm2WFE = np.exp(2*np.pi*1j/wvl *
+                             pad_crop(mp.dm2.wfe, NdmPad, extrapval=0))
+        else:
+            Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
         Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
@@ -839,13 +846,13 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         if any(mp.dm_ind == 1):
             Edm1WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm1.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm2.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
-- 
2.43.0


From 1da2ba594361f36c5266b7bc1047c698a6feea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 032/112] fix: compact model and Jacobian agree on whether the
 FPM scales with wavelength

---
 falco/model/jacobians.py |  2 +-
 falco/model/models.py    | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 7366f0a..8f8f3dc 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -239,7 +239,7 @@ def lyot(mp, imode, idm, iact):
     surfIntoPhase = 2.  # Phase change is twice the DM surface height.
 
     # Default is that FPM sampling does not vary with wavelength
-    if mp.layout.lower() == 'fpm_scale':
+    if falco.model.does_fpm_scale(mp):
         scaleFac = wvl/mp.lambda0
     else:
         scaleFac = 1
diff --git a/falco/model/models.py b/falco/model/models.py
index 9489c0b..f2e6f1c 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -730,17 +730,37 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
     elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
                                'proper', 'fpm_scale'):
-        if mp.coro.upper() == 'HLC':
-            Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
-                                   flagScaleFPM=True, useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
-        else:
-            Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
-                                   useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
+        Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
+                               flagScaleFPM=does_fpm_scale(mp),
+                               useFPM=useFPM,
+                               forRevGradModel=forRevGradModel)
     return Eout
 
 
+def does_fpm_scale(mp):
+    """
+    Return whether the FPM's pixel size is proportional to the wavelength.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+
+    Returns
+    -------
+    flagScaleFPM : bool
+        True if the sampling of the FPM in the compact model and Jacobian is
+        scaled by wvl/mp.lambda0.
+    """
+    layout = mp.layout.lower()
+    if layout == 'fpm_scale':
+        return True
+
+    return (mp.coro.upper() == 'HLC' and
+            layout in ('roman_phasec_proper', 'wfirst_phaseb_proper',
+                       'proper'))
+
+
 def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                     useFPM=True, forRevGradModel=False):
     """
-- 
2.43.0


From ca4f9f2754ac537eb8a832d2b5ca09cc8f6c77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 033/112] fix: Jacobian columns computed in parallel or in
 slices match the serial Jacobian for any actuator subset

---
 falco/model/models.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index f2e6f1c..2cde520 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1135,14 +1135,18 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
+            results_order_dm1 = []
+            results_order_dm2 = []
+            if any(mp.dm_ind == 1):
+                results_order_dm1 = [(imode, 1, iact, index) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
+            if any(mp.dm_ind == 2):
+                results_order_dm2 = [(imode, 2, iact, index) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
             results_order = results_order_dm1 + results_order_dm2
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, iact, _ in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1150,15 +1154,15 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][3]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
                 if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G8[:, index, imode] = results_tuple[ii]
                 if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G9[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
@@ -1265,13 +1269,15 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
-            fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
-            jacStruct.G1[:, index, imode] = np.load(fn_dm1)
+        if any(mp.dm_ind == 1):
+            for index, iact in enumerate(mp.dm1.act_ele):
+                fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
+                jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
-            fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
-            jacStruct.G2[:, index, imode] = np.load(fn_dm2)
+        if any(mp.dm_ind == 2):
+            for index, iact in enumerate(mp.dm2.act_ele):
+                fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
+                jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
     # TIED ACTUATORS
     apply_ties_to_jac(mp, jacStruct)
-- 
2.43.0


From f3432d28b9613df3f053ddd6ea57bccd6cbfeee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 034/112] fix: vortex Jacobian of DM1 uses the Lyot plane
 sampling when imaging to the camera

---
 falco/model/jacobians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 8f8f3dc..89cacae 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -874,7 +874,7 @@ def vortex(mp, imode, idm, iact):
 
         # MFT to camera
         EP4 = fp.relay(EP4, NrelayFactor*mp.NrelayFend, mp.centering)  # Rotate the final image 180 degrees if necessary
-        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P2.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
+        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P4.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
 
         Gchunk = EFend[mp.Fend.corr.maskBool]/np.sqrt(mp.Fend.compact.I00[modvar.sbpIndex])
 
-- 
2.43.0


From 4e0ddb8f4abb1507cc0e7b6cab536fde2f5b882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 035/112] fix: no-FPM Jacobian accounts for the centering of
 the relays and the outer HLC transmission

---
 falco/model/jacobians.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 89cacae..201e8cb 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -1021,7 +1021,8 @@ def no_fpm(mp, imode, idm, iact):
     # Ein = np.sqrt(starWeight) * Ett * \
     #     np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])
 
-    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2)
+    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2,
+                                      mp.centering)
 
     # # Apply a Zernike (in amplitude) at input pupil
     # # Used only for Zernike sensitivity control.
@@ -1044,12 +1045,12 @@ def no_fpm(mp, imode, idm, iact):
         else:
             lyotStopReimaged = falco.prop.relay(
                 pad_crop(mp.P4.compact.maskAtP1res, NdmPad),
-                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     else:
         lyotStopReimaged = falco.prop.relay(
             pad_crop(mp.P4.compact.mask, NdmPad),
-            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     # pupil = pad_crop(mp.P1.compact.mask, NdmPad)
     # Ein = pad_crop(Ein, NdmPad)
@@ -1098,7 +1099,12 @@ def no_fpm(mp, imode, idm, iact):
         # Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
 
-    transOuterFPM = 1
+    # Complex transmission of the points outside the FPM, which is kept in the
+    # beam when the FPM is removed.
+    if mp.coro.upper() == 'HLC':
+        transOuterFPM = mp.compact.fpmCube[0, 0, modvar.sbpIndex]
+    else:
+        transOuterFPM = 1
 
     """Propagation"""
     # # Get the unocculted peak E-field and coronagraphic E-field
-- 
2.43.0


From ba095c55433621513b5f19dac62259794b538951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 036/112] fix: AD-EFC gradient uses the correct sampling and
 transmission at the FPM and Lyot planes

---
 falco/model/models.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 2cde520..076f7f0 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -447,12 +447,6 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     isEvalMode = False
     useFPM = True
 
-    # Complex trans of points outside FPM
-    if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
-    else:
-        transOuterFPM = 1.
-
     if mp.flagRotation:
         NrelayFactor = 1
     else:
@@ -515,6 +509,19 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         mp.dm1.V = mp.dm1.V0.copy()
         mp.dm2.V = mp.dm2.V0.copy()
 
+        # Complex trans of points outside FPM. (For an HLC, the call to compact()
+        # above sets the FPM to the one at this wavelength.)
+        if mp.coro.upper() == 'HLC':
+            transOuterFPM = mp.F3.compact.mask[0, 0]
+        else:
+            transOuterFPM = 1.
+
+        # Sampling of the FPM (not defined for a vortex)
+        if mp.coro.upper() not in ('VORTEX', 'VC', 'AVC'):
+            fpmScaleFac = wvl/mp.lambda0 if does_fpm_scale(mp) else 1.0
+            dxiF3 = fpmScaleFac*mp.F3.compact.dxi
+            detaF3 = fpmScaleFac*mp.F3.compact.deta
+
         # Compute the delta E-field from the latest commands (model new - model old).
         dEend = EFendB - EFendA
 
@@ -546,19 +553,19 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
-            EP4noFPM_grad = EP4_grad
+            EP4noFPM_grad = np.conj(transOuterFPM) * EP4_grad
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
-- 
2.43.0


From e8aa1d7659b16b069e76182203c9dedf7b4f44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 037/112] fix: AD-EFC gradient includes the derivative of the
 DM usage penalty

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 076f7f0..9c21f5e 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -613,7 +613,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0


From 9a71144df67bfad9d46cfded3b3202cb27871f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 038/112] fix: AD-EFC gradient of DM1 includes the DM2 aperture
 stop and wavefront error

---
 falco/model/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/falco/model/models.py b/falco/model/models.py
index 9c21f5e..c417706 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -584,9 +584,14 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             Edm2_grad = falco.prop.ptp(EP2eff_grad, mp.P2.compact.dx*EP2eff_grad.shape[0], wvl, d_p2_to_dm2)
 
         Edm2_grad = np.conj(np.exp(1j*kk*DM2surf)) * Edm2_grad
+        if mp.flagDMwfe and any(mp.dm_ind == 2):
+            Edm2_grad *= np.exp(-2*np.pi*1j/wvl *
+                                pad_crop(mp.dm2.compact.wfe, NdmPad))
         surf_dm2_bar = -kk*np.imag(Edm2_grad * np.conj(Edm2pre))
 
         # To DM1
+        if mp.flagDM2stop:
+            Edm2_grad = np.conj(pad_crop(mp.dm2.compact.mask, NdmPad)) * Edm2_grad
         Edm1_grad = falco.prop.ptp(Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
         surf_dm1_bar = -kk*np.imag(Edm1_grad * np.conj(Edm1post))
 
-- 
2.43.0


From 65c649f5a99d51f01acd6b54ae1a7f1c491dcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 039/112] fix: AD-EFC gradient has the orientation of the DM
 commands and supports a single DM

---
 falco/dm.py           | 28 ++++++++++++++++++++++++++++
 falco/model/models.py | 25 +++++++++++++------------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index cc8caae..94f9b81 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -146,6 +146,34 @@ def gen_surf_from_act(dm, dx, Nout):
     return DMsurf
 
 
+def undo_orientation(dm, actMap):
+    """
+    Bring a map in the orientation of the DM surface to that of the commands.
+
+    This is the inverse of the change of orientation of the commands made in
+    gen_surf_from_act().
+
+    Parameters
+    ----------
+    dm : ModelParameters
+        Structure containing parameter values for the DM
+    actMap : array_like
+        2-D map with one value per actuator
+
+    Returns
+    -------
+    actMap : array_like
+        2-D map with the same orientation as the command map dm.V
+
+    """
+    orientation = getattr(dm, 'orientation', 'rot0').lower()
+    actMap = np.rot90(actMap, -int(orientation.split('rot')[1])//90)
+    if orientation.startswith('flipx'):
+        actMap = np.fliplr(actMap)
+
+    return actMap.copy()
+
+
 def _centering_shift(dm, dx):
     """
     Compute the shift of the DM that centers its surface in the output array.
diff --git a/falco/model/models.py b/falco/model/models.py
index c417706..9d8ce72 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -604,20 +604,21 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # print('normFacADweightedSum = %.4g' % normFacADweightedSum)
     # print('utu_coef = %.4g' % utu_coef)
 
-    if mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel:
-        Vout1 = mp.dm1.differentiableModel.render_backprop(
-            surf_dm1_bar_total, wfe=False)
-        Vout2 = mp.dm2.differentiableModel.render_backprop(
-            surf_dm2_bar_total, wfe=False)
+    gradient_list = []
+    for idm, dm, surf_bar_total in ((1, mp.dm1, surf_dm1_bar_total),
+                                    (2, mp.dm2, surf_dm2_bar_total)):
+        if not any(mp.dm_ind == idm):
+            continue
 
-    else:
-        raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
+        if not dm.useDifferentiableModel:
+            raise ValueError('useDifferentiableModel must be True for all DMs used by AD-EFC.')
+
+        Vout = dm.differentiableModel.render_backprop(surf_bar_total, wfe=False)
+        Vout = falco.dm.undo_orientation(dm, Vout)
+        Vout *= dm.VtoH * np.conj(~dm.dead_map)
+        gradient_list.append(Vout.reshape([dm.NactTotal])[dm.act_ele])
 
-    Vout1 *= mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
-    Vout2 *= mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
-    gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
-                               Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
-                              axis=None)
+    gradient = np.concatenate(gradient_list, axis=None)
     gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
-- 
2.43.0


From e69862374cbb16a833c9749703fe6ceee1412dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 040/112] fix: cropping the Lyot stop never removes nonzero
 pixels

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index ed65a24..d61a553 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -769,7 +769,7 @@ def crop_lyot_stop(mp):
 
         lyotSum = np.sum(mp.P4.full.mask)
         lyotDiff = 0
-        counter = 2
+        counter = 0
         while np.abs(lyotDiff) <= 1e-7:
             mp.P4.full.Narr = len(mp.P4.full.mask)-counter
             # Subtract an extra 2 to negate the extra step that overshoots:
@@ -781,7 +781,7 @@ def crop_lyot_stop(mp):
     # Compact model
     lyotSum = np.sum(mp.P4.compact.mask)
     lyotDiff = 0
-    counter = 2
+    counter = 0
     while np.abs(lyotDiff) <= 1e-7:
         # Number of points across the cropped-down Lyot stop
         mp.P4.compact.Narr = len(mp.P4.compact.mask) - counter
-- 
2.43.0


From 5316c3551bfcfce054f52b772bbf678adc213a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 041/112] fix: images computed in parallel include every star
 and the noise, with the right polarization state

---
 falco/imaging.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..705d22e 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,6 @@
 """Functions for generating images in FALCO."""
+import copy
+
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -246,6 +248,20 @@ def _model_full_norm_wrapper(mp, ilist, inds_list):
     return np.max(np.abs(Etemp)**2)
 
 
+def _copy_with_polaxis(mp, polaxis):
+    """
+    Return a shallow copy of mp with the given value of mp.full.polaxis.
+
+    Copying is necessary because several threads, each of which might be for a
+    different polarization state, share mp.
+    """
+    mp = copy.copy(mp)
+    mp.full = copy.copy(mp.full)
+    mp.full.polaxis = polaxis
+
+    return mp
+
+
 def get_summed_image(mp):
     """
     Get the broadband image over the entire bandpass.
@@ -267,7 +283,8 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
+        # The noise is added separately to each sub-bandpass image.
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -275,9 +292,10 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = len(vals_list)
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -330,14 +348,15 @@ def _get_single_sim_full_image_one_arg(mp):
     vals_list = mp.vals_list
     ilam = vals_list[ilist][0]
     pol = vals_list[ilist][1]
+    iStar = vals_list[ilist][2]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, pol)
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
@@ -347,14 +366,15 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     """Use only with get_summed_image."""
     ilam = vals_list[ilist][0]
     pol = vals_list[ilist][1]
+    iStar = vals_list[ilist][2]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, pol)
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
@@ -481,7 +501,7 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, mp.full.pol_conds[ipol])
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
-- 
2.43.0


From cee531f8967e66434c0161d6d14aa51380bff07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 042/112] fix: threads computing images share neither the HLC
 mask nor a partly built DM model

---
 falco/dm.py           | 3 ++-
 falco/model/models.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 94f9b81..81784da 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -103,7 +103,6 @@ def gen_surf_from_act(dm, dx, Nout):
                 getattr(dm, "differentiableModelSettings", None) != modelSettings:
             # Initialize the model object if this is the first time or if it was
             # made for other settings (e.g., for the other optical model)
-            dm.differentiableModelSettings = modelSettings
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
@@ -117,6 +116,8 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
+            # Last, so that other threads never use the previous model object
+            dm.differentiableModelSettings = modelSettings
         else:
             dm.differentiableModel.update(heightMap)
             
diff --git a/falco/model/models.py b/falco/model/models.py
index 9d8ce72..3136e7b 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -104,6 +104,12 @@ def full(mp, modvar, isNorm=True):
 
     # %% Pre-compute the FPM first for HLC
     if mp.coro.upper() == 'HLC':
+        # The FPM differs for each wavelength, and threads for several
+        # wavelengths share mp. Therefore, set the FPM in a shallow copy.
+        mp = copy.copy(mp)
+        mp.F3 = copy.copy(mp.F3)
+        mp.F3.full = copy.copy(mp.F3.full)
+
         # Interior wavelengths at the edges of sub-bands are the same, and the
         # fpmCube contains only the minimal set of masks (one per unique
         # wavelength).
-- 
2.43.0


From ab1064f59955f694952b290868ce5c160d819561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 043/112] fix: off-axis image of the compact model is weighted
 by the sub-bandpass weights of the piston mode

---
 falco/imaging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 705d22e..3da482e 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -636,7 +636,7 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
     modvar.y_offset = y_offset
 
     Iout = 0.
-    for iStar in range(mp.star.count):
+    for iStar in range(mp.compact.star.count):
         modvar.starIndex = iStar
 
         for si in range(mp.Nsbp):
@@ -644,7 +644,8 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
             modvar.zernIndex = 1
 
             E2D = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
-            Iout += (np.abs(E2D)**2) * mp.jac.weightMat[si, 0]
+            Iout += (np.abs(E2D)**2) * \
+                mp.jac.weightMat[si, mp.jac.zerns == 1]
 
     return Iout
 
-- 
2.43.0


From 09da1fb19c7162ff5e804a45e0e62ec9f2b5fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 044/112] fix: expected image uses the estimate of the piston
 modes of every star

---
 falco/imaging.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 3da482e..d11ae30 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -547,18 +547,23 @@ def get_expected_summed_image(mp, cvar, dDM):
     if(any(mp.dm_ind == 9)):
         DM9V0 = mp.dm9.V.copy()
 
+    # Only the piston modes of the control Jacobian are in the image, with one
+    # mode for each star and sub-bandpass.
+    imodeVec = np.nonzero(mp.jac.zern_inds == 1)[0]
+
     # Initialize variables
     Ibandavg = 0
-    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
-    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
+    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
+    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
 
     # Generate the model-based E-field with the new DM setting
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.whichSource = 'star'
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for imode in imodeVec:
+        modvar.sbpIndex = mp.jac.sbp_inds[imode]
+        modvar.starIndex = mp.jac.star_inds[imode]
         Etemp = falco.model.compact(mp, modvar)
-        EnewTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EnewTempVecArray[:, imode] = Etemp[mp.Fend.corr.maskBool]
 
     # Revert to the previous DM commands
     if any(mp.dm_ind == 1):
@@ -573,19 +578,21 @@ def get_expected_summed_image(mp, cvar, dDM):
     # Generate the model-based E-field with the previous DM setting
     modvar.whichSource = 'star'
     modvar.wpsbpIndex = 0  # Dummy, placeholder value
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for imode in imodeVec:
+        modvar.sbpIndex = mp.jac.sbp_inds[imode]
+        modvar.starIndex = mp.jac.star_inds[imode]
         Etemp = falco.model.compact(mp, modvar)
-        EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EoldTempVecArray[:, imode] = Etemp[mp.Fend.corr.maskBool]
 
     # Compute the expected new 2-D intensity image
-    for si in range(mp.Nsbp):
-        EexpectedVec = cvar.Eest[:, si] + \
-            (EnewTempVecArray[:, si] - EoldTempVecArray[:, si])
+    for imode in imodeVec:
+        EexpectedVec = cvar.Eest[:, imode] + \
+            (EnewTempVecArray[:, imode] - EoldTempVecArray[:, imode])
         Eexpected2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         Eexpected2D[mp.Fend.corr.maskBool] = EexpectedVec
 
-        Ibandavg += mp.sbp_weights[si]*np.abs(Eexpected2D)**2
+        Ibandavg += mp.sbp_weights[mp.jac.sbp_inds[imode]] * \
+            np.abs(Eexpected2D)**2
 
     # Reset voltage commands in mp
     if any(mp.dm_ind == 1):
-- 
2.43.0


From e0c67c2bfb434d24da8cd2d3b08394530159dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 045/112] fix: aperture stop at DM1 can be used

---
 falco/setup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/setup.py b/falco/setup.py
index d61a553..f1ed780 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1296,6 +1296,10 @@ def falco_configure_dm1_and_dm2(mp):
 
 def falco_gen_dm_stops(mp):
     """Generate circular aperture stops for the DMs."""
+    if not hasattr(mp.dm1, 'full'):
+        mp.dm1.full = falco.config.Object()
+    if not hasattr(mp.dm1, 'compact'):
+        mp.dm1.compact = falco.config.Object()
     if not hasattr(mp.dm2, 'full'):
         mp.dm2.full = falco.config.Object()
     if not hasattr(mp.dm2, 'compact'):
-- 
2.43.0


From b7b2276eeebf90e34c6381557fa99ca4adfe228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 046/112] fix: Zernike maps are normalized over the beam
 diameter

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..6f55381 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -376,7 +376,7 @@ def gen_norm_zern_maps(Nbeam, centering, indsZnoll):
     # PROPER setup values
     Dbeam = 1.  # Diameter of aperture, normalized to itself
     wl = 1e-6  # wavelength (m); Dummy value--no propagation here, so not used.
-    beam_diam_frac = Narray/Nbeam
+    beam_diam_frac = Nbeam/Narray
 
     # Initialize wavefront structure in PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, beam_diam_frac)
-- 
2.43.0


From 4ad3705bc29ae10d1862e68a6e618d6faca5881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 047/112] fix: Jacobian can be computed when only one of two
 tied actuators is used

---
 falco/model/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 3136e7b..452a8cc 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1224,7 +1224,8 @@ def apply_ties_to_jac(mp, jacStruct):
             Index2all = mp.dm1.tied[ti, 1]  # Index of second tied actuator in whole actuator set.
             Index1subset = np.nonzero(mp.dm1.act_ele == Index1all)[0]  # Index of first tied actuator in subset of used actuators. 
             Index2subset = np.nonzero(mp.dm1.act_ele == Index2all)[0]  # Index of second tied actuator in subset of used actuators. 
-            jacStruct.G1[:, Index1subset, :] += jacStruct.G1[:, Index2subset, :]  # adding the 2nd actuators Jacobian column to the first actuator's column
+            if Index1subset.size > 0 and Index2subset.size > 0:
+                jacStruct.G1[:, Index1subset, :] += jacStruct.G1[:, Index2subset, :]  # adding the 2nd actuators Jacobian column to the first actuator's column
             jacStruct.G1[:, Index2subset, :] = 0*jacStruct.G1[:, Index2subset, :]  # zero out the 2nd actuator's column.
 
     if any(mp.dm_ind == 2):
@@ -1234,7 +1235,8 @@ def apply_ties_to_jac(mp, jacStruct):
             Index2all = mp.dm2.tied[ti, 1]  # Index of second tied actuator in whole actuator set. 
             Index1subset = np.nonzero(mp.dm2.act_ele == Index1all)[0]  # Index of first tied actuator in subset of used actuators. 
             Index2subset = np.nonzero(mp.dm2.act_ele == Index2all)[0]  # Index of second tied actuator in subset of used actuators. 
-            jacStruct.G2[:, Index1subset, :] += jacStruct.G2[:, Index2subset, :]  # adding the 2nd actuators Jacobian column to the first actuator's column
+            if Index1subset.size > 0 and Index2subset.size > 0:
+                jacStruct.G2[:, Index1subset, :] += jacStruct.G2[:, Index2subset, :]  # adding the 2nd actuators Jacobian column to the first actuator's column
             jacStruct.G2[:, Index2subset, :] = 0*jacStruct.G2[:, Index2subset, :]  # zero out the 2nd actuator's column.
 
     return None
-- 
2.43.0


From 056bac073c944994246323ae154918f64aa3e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 048/112] fix: AD-EFC cost can be evaluated when only one DM is
 controlled

---
 falco/model/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 452a8cc..76391f6 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -472,8 +472,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # Calculate new cumulative DM commands and put into 2-D arrays
     dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     dDM2Vvec = np.zeros(mp.dm2.NactTotal)
-    dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
-    dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
+    if any(mp.dm_ind == 1):
+        dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
+    if any(mp.dm_ind == 2):
+        dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
     dv_dm1 = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
     dv_dm2 = dDM2Vvec.reshape((mp.dm2.Nact, mp.dm2.Nact))
 
-- 
2.43.0


From 65386eb1746e4bb9871eea0b453fdb33173a5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 049/112] fix: AD-EFC applies the scaling factor of the DM
 command

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..72d402d 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -991,7 +991,7 @@ def _ad_efc(ni, vals_list, mp, cvar):
                  'iprint': mp.ctrl.ad.iprint,
                  },
         )
-    duVec = u_sol.x
+    duVec = dmfac*u_sol.x
     print(u_sol.success)
     print(u_sol.nit)
     '''
-- 
2.43.0


From f0e3fb36674a14fcf97166d4053b4bfd8219463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 050/112] fix: AD-EFC applies the voltages it optimized when
 the DMs are weighted

---
 falco/ctrl.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 72d402d..8304149 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1011,6 +1011,11 @@ def _ad_efc(ni, vals_list, mp, cvar):
     t1 = time.time()
     print('Optimization time = %.3f' % (t1-t0))
 
+    # The optimized commands are voltages, so undo the weighting in wrapup()
+    for idm, dm in ((1, mp.dm1), (2, mp.dm2)):
+        if any(mp.dm_ind == idm):
+            duVec[cvar.uLegend == idm] /= dm.weight
+
     # Parse the command vector by DM and assign the output commands
     mp, dDM = wrapup(mp, cvar, duVec)
 
-- 
2.43.0


From ea6efb7ec5ca0703b019127d760263fa52f4ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 051/112] fix: image of the perfect estimate includes every
 star

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..58bcdad 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
-- 
2.43.0


From 0e156cf711d127c9cb47c5911099ac919c1c6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 052/112] fix: perfect estimate can be computed in parallel for
 a rectangular image

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 58bcdad..ad31df7 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
-- 
2.43.0


From e93e779920fc832c74dfa23f935f327348950831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 053/112] fix: probe properties can be scheduled

---
 falco/est.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index ad31df7..89a6695 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -249,28 +249,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', ValueError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', ValueError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', ValueError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', ValueError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
@@ -423,7 +427,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From dbfff228425839d55b2d98df83a58f671dd033a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 054/112] fix: pair-wise probing keeps the commands of a DM
 that is not used

---
 falco/est.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 89a6695..c4d6731 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -296,15 +296,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
@@ -710,10 +703,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         # plt.gca().invert_yaxis()
 
     # Reset nominal values that were changed
-    if np.any(mp.dm_ind == 1):
-        mp.dm1.V = DM1Vnom
-    if np.any(mp.dm_ind == 2):
-        mp.dm2.V = DM2Vnom
+    mp.dm1.V = DM1Vnom
+    mp.dm2.V = DM2Vnom
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From 1927ec57d90c4aa29183e2ad5fb9c849f78d1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 055/112] fix: DM2 can be used for probing when it has a
 different size than DM1

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index c4d6731..1d883f1 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -514,7 +514,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From c39c90876f32733098e92e4c6cc77c1104e1f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 056/112] fix: pair-wise probing can use the Jacobian

---
 falco/est.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 1d883f1..0520dfc 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -532,13 +532,13 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                            jacStruct.G1[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm1.act_ele] / mp.dm1.weight
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                            jacStruct.G2[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm2.act_ele] / mp.dm2.weight
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -599,7 +599,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
                     if mp.est.flagUseJac:
                         dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From 4c05c30098cf1f3409c607f9ef145c0361d95506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 057/112] fix: spatial weights are applied only once to a
 Jacobian used in several iterations

---
 falco/ctrl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 8304149..d6d003e 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1057,6 +1057,13 @@ def apply_spatial_weighting_to_Jacobian(mp, jacStruct):
     None.
 
     """
+    # Leave the original, unweighted arrays intact because they might be used
+    # again in later iterations.
+    if np.any(mp.dm_ind == 1):
+        jacStruct.G1 = jacStruct.G1.copy()
+    if np.any(mp.dm_ind == 2):
+        jacStruct.G2 = jacStruct.G2.copy()
+
     for iStar in range(mp.compact.star.count):
 
         if np.any(mp.dm_ind == 1):
-- 
2.43.0


From e531284629f2c19368d3728f7ecbdbbae0b99512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 058/112] fix: EFC works for a DM with a single used actuator

---
 falco/ctrl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index d6d003e..4207a69 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -57,13 +57,13 @@ def wrapper(mp, cvar, jacStruct):
 
             Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
             if any(mp.dm_ind == 1):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
             if any(mp.dm_ind == 2):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
             if any(mp.dm_ind == 8):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G8[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G8[:, :, iMode]))
             if any(mp.dm_ind == 9):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G9[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G9[:, :, iMode]))
             Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
             # Square matrix part stays the same if no re-linearization has occurrred.
@@ -1232,9 +1232,9 @@ def set_utu_scale_fac(mp):
 
         Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
         if any(mp.dm_ind == 1):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
         if any(mp.dm_ind == 2):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
         Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
         # Square matrix part stays the same if no re-linearization has occurrred.
-- 
2.43.0


From e892a96a94b8b983d0cf8f3b06ce9021d4908f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 059/112] fix: command vector for EFC uses the DM8 commands for
 DM8

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 4207a69..f64baf6 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1119,7 +1119,7 @@ def init(mp, cvar):
     # Make the vector of total DM commands from before
     u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
     u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
-    u8 = mp.dm9.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
+    u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
     u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele] if any(mp.dm_ind == 9) else np.array([])
     cvar.uVec = np.concatenate((u1, u2, u8, u9))
     cvar.NeleAll = cvar.uVec.size
-- 
2.43.0


From 0912c8b168163cc190329ce88fb7d4f24b2a10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 060/112] fix: parallel grid search returns the image for the
 best settings

---
 falco/ctrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index f64baf6..57f7e4d 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -352,6 +352,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
-- 
2.43.0


From 9a7f667e641796cf90c52a22d2ef77d18c6f03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 061/112] fix: storing the intensities leaves the incoherent
 estimate unchanged

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..0b8eb31 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -342,7 +342,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From 1e200f5907a301941d8272d734fc09fedc090c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 062/112] fix: histories of the estimated intensities have room
 for every mode

---
 falco/setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index f1ed780..4e939ed 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1481,10 +1481,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From b9802e258da71ddfe89be56228dc0d5515932b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 063/112] fix: Jacobian columns match the actuators when the
 DMs in use change

---
 falco/ctrl.py | 70 +++++++++++++++++++++++++++++++++++----------------
 falco/wfsc.py |  1 +
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 57f7e4d..a9b178b 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -127,9 +127,12 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
-def cull_weak_actuators(mp, cvar, jacStruct):
+def reset_actuator_basis(mp, cvar):
     """
-    Remove weak actuators from the controlled set.
+    Re-include all actuators in the controlled set if it is about to change.
+
+    The control Jacobian that is used to cull weak actuators must be computed
+    for all actuators, so this is called before computing the Jacobian.
 
     Parameters
     ----------
@@ -137,17 +140,12 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         Structure containing optical model parameters
     cvar : ModelParameters
         Structure containing controller variables
-    jacStruct : ModelParameters
-        Structure containing control Jacobians for each specified DM.
 
     Returns
     -------
     None
-        Changes are made by reference to mp and jacStruct.
+        Changes are made by reference to mp and cvar.
     """
-    if type(mp) is not falco.config.ModelParameters:
-        raise TypeError('Input "mp" must be of type ModelParameters')
-
     if cvar.Itr == 0:  # Cull in first iteration
         cvar.flagCullAct = True
     else:  # Cull when actuators used change
@@ -158,21 +156,18 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         else:
             cvar.flagCullAct = False
 
-    if not hasattr(mp, 'flagCullActHist'):
-        mp.flagCullActHist = np.zeros((mp.Nitr, ))
-    mp.flagCullActHist[cvar.Itr] = cvar.flagCullAct
-
-    # Before performing new cull, include all actuators again
     if cvar.flagCullAct:
-        # Re-include all actuators in the basis set.
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
+        # Re-include all actuators in the basis set unless the Jacobian of the
+        # actuators that were kept is still to be used.
+        if cvar.flagRelin:
+            if np.any(mp.dm_ind == 1):
+                mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
+            if np.any(mp.dm_ind == 2):
+                mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
+            if np.any(mp.dm_ind == 8):
+                mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
+            if np.any(mp.dm_ind == 9):
+                mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
 
         # Update the number of elements used per DM
         if np.any(mp.dm_ind == 1):
@@ -192,6 +187,37 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         else:
             mp.dm9.Nele = 0
 
+    return None
+
+
+def cull_weak_actuators(mp, cvar, jacStruct):
+    """
+    Remove weak actuators from the controlled set.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+    jacStruct : ModelParameters
+        Structure containing control Jacobians for each specified DM.
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp and jacStruct.
+    """
+    if type(mp) is not falco.config.ModelParameters:
+        raise TypeError('Input "mp" must be of type ModelParameters')
+
+    if not hasattr(mp, 'flagCullActHist'):
+        mp.flagCullActHist = np.zeros((mp.Nitr, ))
+
+    # Before performing new cull, include all actuators again
+    reset_actuator_basis(mp, cvar)
+    mp.flagCullActHist[cvar.Itr] = cvar.flagCullAct
+
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
     if cvar.flagCullAct and cvar.flagRelin:
diff --git a/falco/wfsc.py b/falco/wfsc.py
index 0b8eb31..0c8e7c6 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -77,6 +77,7 @@ def loop(mp, out):
     
             # Compute the control Jacobians for each DM
             cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
+            falco.ctrl.reset_actuator_basis(mp, cvar)
             if cvar.flagRelin:
                 jacStruct = falco.model.jacobian(mp)
 
-- 
2.43.0


From e03471e943960e7dd87d07af1ec813e38b024f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 064/112] fix: the workspace can be saved at the end of the
 loop

---
 falco/wfsc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 0c8e7c6..544fa31 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -200,8 +200,6 @@ def loop(mp, out):
     # Save out the data from the workspace
     if mp.flagSaveWS:
         del cvar
-        del G
-        del h
         del jacStruct
 
         # Don't bother saving the large 2-D, floating point maps.
@@ -226,12 +224,12 @@ def loop(mp, out):
 
         mp.dm1.compact.inf_datacube = 0
         mp.dm2.compact.inf_datacube = 0
-        mp.dm8.compact.inf_datacube = 0
-        mp.dm9.compact.inf_datacube = 0
-        mp.dm8.inf_datacube = 0
-        mp.dm9.inf_datacube = 0
+        for dm in (mp.dm8, mp.dm9):
+            if hasattr(dm, 'compact'):
+                dm.compact.inf_datacube = 0
+            dm.inf_datacube = 0
 
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        fnAll = os.path.join(mp.path.ws, (mp.runLabel + '_all.pkl'))
         print('Saving entire workspace to file ' + fnAll + '...', end='')
         with open(fnAll, 'wb') as f:
             pickle.dump(mp, f)
-- 
2.43.0


From 09e8cfc5ac782c57843686cc5028e9e93ff533eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 065/112] fix: trial and probe commands past a voltage bound do
 not pin actuators afterwards

---
 falco/ctrl.py         |  6 ++++++
 falco/dm.py           | 28 ++++++++++++++++++++++++++++
 falco/est.py          |  7 +++++++
 falco/model/models.py |  2 ++
 4 files changed, 43 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index a9b178b..2af9a76 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -850,6 +850,8 @@ def _efc(ni, vals_list, mp, cvar):
     dDM : ModelParameters
         Structure containing the delta DM commands for each DM
     """
+    # Trial commands past a voltage bound must not stay pinned afterwards
+    pinned0 = falco.dm.get_pinned(mp)
     if any(mp.dm_ind == 1):
         DM1V0 = mp.dm1.V.copy()
     if any(mp.dm_ind == 2):
@@ -896,6 +898,7 @@ def _efc(ni, vals_list, mp, cvar):
         mp.dm8.V = DM8V0
     if any(mp.dm_ind == 9):
         mp.dm9.V = DM9V0
+    falco.dm.set_pinned(pinned0)
 
     return InormAvg, dDM
 
@@ -925,6 +928,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
     dDM : ModelParameters
         Structure containing the delta DM commands for each DM
     """
+    # Trial commands past a voltage bound must not stay pinned afterwards
+    pinned0 = falco.dm.get_pinned(mp)
     if any(mp.dm_ind == 1):
         DM1V0 = mp.dm1.V.copy()
     if any(mp.dm_ind == 2):
@@ -1064,6 +1069,7 @@ def _ad_efc(ni, vals_list, mp, cvar):
         mp.dm8.V = DM8V0
     if any(mp.dm_ind == 9):
         mp.dm9.V = DM9V0
+    falco.dm.set_pinned(pinned0)
 
     return InormAvg, dDM
 
diff --git a/falco/dm.py b/falco/dm.py
index 81784da..0fff71f 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -956,6 +956,34 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
     return Vout, indPair
 
 
+def get_pinned(mp):
+    """
+    Return the pinned actuators of DM1 and DM2.
+
+    Used with set_pinned() to try out commands that might exceed a voltage
+    bound, because enforce_constraints() adds those to the pinned actuators.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+
+    Returns
+    -------
+    list
+        Each DM object with its pinned actuators and their values.
+    """
+    return [(dm, dm.pinned, dm.Vpinned) for dm in (mp.dm1, mp.dm2)
+            if hasattr(dm, 'pinned')]
+
+
+def set_pinned(pinnedList):
+    """Reset the pinned actuators to those returned by get_pinned()."""
+    for dm, pinned, Vpinned in pinnedList:
+        dm.pinned = pinned
+        dm.Vpinned = Vpinned
+
+
 def enforce_constraints(dm):
     """
     Enforce various constraints on DM actuator commands.
diff --git a/falco/est.py b/falco/est.py
index 0520dfc..dfb78a9 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -298,6 +298,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # Store the initial DM commands
     DM1Vnom = mp.dm1.V.copy()
     DM2Vnom = mp.dm2.V.copy()
+    pinnedNom = falco.dm.get_pinned(mp)
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
@@ -379,6 +380,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             # Reset DM commands to the unprobed state:
             mp.dm1.V = DM1Vnom.copy()
             mp.dm2.V = DM2Vnom.copy()
+            falco.dm.set_pinned(pinnedNom)
             # Separate out image values at DH pixels and delta DM voltage settings
             Iplus = np.zeros((mp.Fend.corr.Npix, Npairs))
             Iminus = np.zeros((mp.Fend.corr.Npix, Npairs))
@@ -451,6 +453,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                 else:
                     raise ValueError('DM for probing must be 1 or 2.')
 
+                falco.dm.set_pinned(pinnedNom)
                 if np.any(mp.dm_ind == 1):
                     mp.dm1.V = DM1Vnom + dDM1Vprobe
                 if np.any(mp.dm_ind == 2):
@@ -545,6 +548,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             else:
 
                 # For unprobed field based on model:
+                falco.dm.set_pinned(pinnedNom)
                 if np.any(mp.dm_ind == 1):
                     mp.dm1.V = DM1Vnom.copy()
                 if np.any(mp.dm_ind == 2):
@@ -558,6 +562,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                 Eminus = np.zeros_like(Iminus, dtype=complex)
                 for iProbe in range(Npairs):
                     # For plus probes:
+                    falco.dm.set_pinned(pinnedNom)
                     if whichDM == 1:
                         mp.dm1.V = np.squeeze(DM1Vplus[:, :, iProbe])
                     if whichDM == 2:
@@ -566,6 +571,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     Eplus[:, iProbe] = Etemp[mp.Fend.corr.maskBool]
 
                     # For minus probes:
+                    falco.dm.set_pinned(pinnedNom)
                     if whichDM == 1:
                         mp.dm1.V = np.squeeze(DM1Vminus[:, :, iProbe])
                     if whichDM == 2:
@@ -708,6 +714,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # Reset nominal values that were changed
     mp.dm1.V = DM1Vnom
     mp.dm2.V = DM2Vnom
+    falco.dm.set_pinned(pinnedNom)
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
diff --git a/falco/model/models.py b/falco/model/models.py
index 76391f6..4308474 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -464,6 +464,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # Store initial cumulative DM commands
     mp.dm1.V0 = mp.dm1.V.copy()
     mp.dm2.V0 = mp.dm2.V.copy()
+    pinned0 = falco.dm.get_pinned(mp)
 
     # dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     # dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*duVec[cvar.uLegend == 1]
@@ -516,6 +517,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         # Reset DM commands
         mp.dm1.V = mp.dm1.V0.copy()
         mp.dm2.V = mp.dm2.V0.copy()
+        falco.dm.set_pinned(pinned0)
 
         # Complex trans of points outside FPM. (For an HLC, the call to compact()
         # above sets the FPM to the one at this wavelength.)
-- 
2.43.0


From e8515d8604f625230d310d615e6d6c1648b9ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 066/112] fix: Zernike maps have the grid of their own
 wavefront

---
 falco/proper/prop_zernikes.py | 2 +-
 falco/zern.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_zernikes.py b/falco/proper/prop_zernikes.py
index d961472..226f54e 100644
--- a/falco/proper/prop_zernikes.py
+++ b/falco/proper/prop_zernikes.py
@@ -110,7 +110,7 @@ def prop_zernikes(a, zernike_num, zernike_val, eps = 0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
     
     if proper.print_it and not proper.switch_set("NO_APPLY",**kwargs):
         if "NAME" in kwargs:
diff --git a/falco/zern.py b/falco/zern.py
index 6f55381..eff483d 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -496,7 +496,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
 
     if proper.print_it and not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if "NAME" in kwargs:
-- 
2.43.0


From e51a6ea9e69dd35fcda9d20021f89c02417a0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 067/112] fix: Zernike sensitivities use the size and region of
 the dark hole

---
 falco/zern.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index eff483d..0950f2c 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -45,9 +45,16 @@ def calc_zern_sens(mp):
         maskDict["pixresFP"] = mp.Fend.res
         maskDict["rhoInner"] = Rsens[ni, 0]  # [lambda0/D]
         maskDict["rhoOuter"] = Rsens[ni, 1]  # [lambda0/D]
-        maskDict["angDeg"] = mp.Fend.corr.ang  # [degrees]
+        maskDict["angDeg"] = np.atleast_1d(mp.Fend.corr.ang)[0]  # [degrees]
         maskDict["centering"] = mp.centering
-        maskDict["FOV"] = mp.Fend.FOV
+        maskDict["Nxi"] = mp.Fend.Nxi
+        maskDict["Neta"] = mp.Fend.Neta
+        if hasattr(mp.Fend, 'clockAngDeg'):
+            maskDict["clockAngDeg"] = np.atleast_1d(mp.Fend.clockAngDeg)[0]
+        if hasattr(mp.Fend, 'xiOffset'):
+            maskDict["xiOffset"] = np.atleast_1d(mp.Fend.xiOffset)[0]
+        if hasattr(mp.Fend, 'etaOffset'):
+            maskDict["etaOffset"] = np.atleast_1d(mp.Fend.etaOffset)[0]
         maskDict["whichSide"] = np.atleast_1d(mp.Fend.sides)[0]
         if hasattr(mp.Fend, 'shape'):
             maskDict["shape"] = np.atleast_1d(mp.Fend.shape)[0]
-- 
2.43.0


From 38e619b6eadfc7c6814c8a69547a6d4116e25969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 068/112] fix: Zernike sensitivity can be computed for a single
 mode

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 0950f2c..03e288d 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -214,7 +214,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From d0097bdaa34758c23f9210add8e86553162048c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 069/112] fix: Zernike sensitivities are optional

---
 falco/setup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 4e939ed..a80f4be 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -277,10 +277,12 @@ def set_optional_variables(mp):
     # Sensitivities to Zernike-Mode Perturbations
     if not hasattr(mp.full, 'ZrmsVal'):
         mp.full.ZrmsVal = 1e-9  # Amount of RMS Zernike mode used to calculate aberration sensitivities [meters]. WFIRST CGI uses 1e-9, and LUVOIR and HabEx use 1e-10. 
-    if not hasattr(mp.full, 'Rsens'):
-        mp.full.Rsens = np.array([])
-    if not hasattr(mp.full, 'indsZnoll'):
-        mp.full.indsZnoll = np.array([2, 3])
+    if not hasattr(mp, 'eval'):
+        mp.eval = falco.config.Object()
+    if not hasattr(mp.eval, 'Rsens'):
+        mp.eval.Rsens = np.array([])
+    if not hasattr(mp.eval, 'indsZnoll'):
+        mp.eval.indsZnoll = np.array([2, 3])
 
     # DM Initialization
     if not hasattr(mp, 'dm1'):
-- 
2.43.0


From 40c6f3f42f6d0e2127d711229a607dc577c29fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 070/112] fix: probe settings are optional

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index a80f4be..9f92ded 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -141,7 +141,7 @@ def set_optional_variables(mp):
     if not hasattr(mp, "est"):
         mp.est = falco.config.Object()
     if not hasattr(mp.est, "probe"):
-        mp.est.probe = falco.config.Object()
+        mp.est.probe = falco.config.Probe()
     if not hasattr(mp, "detector"):
         mp.detector = falco.config.Object()
     if not hasattr(mp, "star"):
-- 
2.43.0


From e592f31a04398aa1d3dfb51ef0dd4d1c969809fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 071/112] fix: sum of several obscured Zernike modes includes
 each of them

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 03e288d..12da4a9 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -626,7 +626,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
                 elif zernike_num[iz] == 22:
                     ab = (np.sqrt(7)*(1 + eps**6 - 12*r2 + 30*r4 - 20*r**6 + eps**4*(9 - 12*r2) + eps**2*(9 - 36*r2 + 30*r4)))/ (-1 + eps**2)**3
 
-            dmap[j, :] += zernike_val[iz] * ab
+                dmap[j, :] += zernike_val[iz] * ab
 
     if not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if ("AMPLITUDE" in kwargs and kwargs["AMPLITUDE"]):
-- 
2.43.0


From 5328a21e18cc2476f96f02dd620c0dbb5168c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 072/112] fix: axes of a rectangular full-model focal-plane
 mask

---
 falco/setup.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 9f92ded..3e52a57 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -970,19 +970,24 @@ def falco_compute_fpm_coordinates(mp):
             mp.F3.full.deta = mp.F3.full.dxi  # [meters/pixel]
 
             # Coordinates (dimensionless [DL]) for the FPMs in the full model
+            # horizontal axis, xis
             if mp.centering == 'interpixel' or (mp.F3.full.Nxi % 2) == 1:
                 mp.F3.full.xisDL = (np.linspace(-(mp.F3.full.Nxi-1)/2,
                                                 (mp.F3.full.Nxi-1)/2,
                                                 mp.F3.full.Nxi) /
                                     mp.F3.full.res)
+            elif mp.centering == 'pixel':
+                mp.F3.full.xisDL = (np.arange(-mp.F3.full.Nxi/2,
+                                             (mp.F3.full.Nxi/2)) /
+                                    mp.F3.full.res)
+
+            # vertical axis, etas
+            if mp.centering == 'interpixel' or (mp.F3.full.Neta % 2) == 1:
                 mp.F3.full.etasDL = (np.linspace(-(mp.F3.full.Neta-1)/2,
                                                  (mp.F3.full.Neta-1)/2,
                                                  mp.F3.full.Neta) /
                                      mp.F3.full.res)
             elif mp.centering == 'pixel':
-                mp.F3.full.xisDL = (np.arange(-mp.F3.full.Nxi/2,
-                                             (mp.F3.full.Nxi/2)) /
-                                    mp.F3.full.res)
                 mp.F3.full.etasDL = (np.arange(-mp.F3.full.Neta/2,
                                               (mp.F3.full.Neta/2)) /
                                      mp.F3.full.res)
-- 
2.43.0


From f5eb84ee8d24c6302a56754bf950308a742c178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 073/112] fix: padding of the mirror planes meets the sampling
 requirement at every wavelength

---
 falco/setup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 3e52a57..c3efe9d 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1337,7 +1337,7 @@ def falco_set_dm_surface_padding(mp):
     else:
         NdmPad = 2*mp.P1.compact.Nbeam;
 
-    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
+    while (NdmPad < np.max(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.compact.dx**2) or (NdmPad < np.max(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
         # Double the zero-padding until the angular spectrum sampling requirement is not violated
         NdmPad = 2*NdmPad;
     mp.compact.NdmPad = NdmPad;
@@ -1352,8 +1352,8 @@ def falco_set_dm_surface_padding(mp):
     else:
         NdmPad = 2*mp.P1.full.Nbeam
     # Double the zero-padding until the angular spectrum sampling requirement is not violated
-    while (NdmPad < np.min(mp.full.lambdas)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or \
-        (NdmPad < np.min(mp.full.lambdas)*np.abs(mp.d_P2_dm1)/mp.P2.full.dx**2): 
+    while (NdmPad < np.max(mp.full.lambdas)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or \
+        (NdmPad < np.max(mp.full.lambdas)*np.abs(mp.d_P2_dm1)/mp.P2.full.dx**2): 
         NdmPad = 2*NdmPad
     mp.full.NdmPad = NdmPad
 
-- 
2.43.0


From 48256a304b3699a1efeb73895448402ab59bc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 074/112] fix: fused silica can be named in full as the
 substrate

---
 falco/thinfilm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..955d3ac 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -165,7 +165,7 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
     # Define Material Properties
     # ---------------------------------------------
     # Substrate properties
-    if substrate.upper() in ('FS', 'FUSEDSILICA, FUSED_SILICA'):
+    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
         A1 = 0.68374049400
         A2 = 0.42032361300
         A3 = 0.58502748000
-- 
2.43.0


From a02af55ce3ee173c1b88a066a7ebec4b19eb98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 075/112] fix: mean reflection coefficient of the two
 polarizations

---
 falco/thinfilm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 955d3ac..e43e2af 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -317,7 +317,9 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
                                                     lam, False)
                 [dummy1, dummy2, rr1, tt1] = solver(nvec, dvec, theta,
                                                     lam, True)
-                rr = (rr0+rr1)/2.
+                # The TM coefficient is that of the magnetic field, whose
+                # sign is opposite to that of the electric field.
+                rr = (rr0-rr1)/2.
                 tt = (tt0+tt1)/2.
             elif(pol == 0 or pol == 1):
                 [dumm1, dummy2, rr, tt] = solver(nvec, dvec, theta, lam,
-- 
2.43.0


From b02af6d759ee9fc778d02b1666d0a785c74888c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 076/112] fix: thin films beyond the critical angle

---
 falco/thinfilm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index e43e2af..9c435e7 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -386,7 +386,9 @@ def solver(n, d0, theta, lam, tetm=False):
 
     kx = 2*np.pi*n[0]*np.sin(theta)/lam
     # sign agrees with measurement convention:
-    kz = -np.sqrt((2*np.pi*n/lam)**2 - kx*kx)
+    kz = -np.sqrt((2*np.pi*n/lam)**2 - kx*kx + 0j)
+    # evanescent waves decay in the direction of propagation
+    kz[np.imag(kz) < 0] *= -1
 
     if tetm:
         kzz = kz/(n*n)
-- 
2.43.0


From 470c8cac50e3907d32bc6191648bb8d8b60cd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 077/112] fix: stored thin-film tables are used only for the
 mask they were computed for

---
 falco/thinfilm.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 9c435e7..03531f8 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -1,4 +1,5 @@
 """Module for thin film functions to make complex-valued HLC occulters."""
+import hashlib
 import numpy as np
 from os.path import isfile
 import os
@@ -452,18 +453,27 @@ def gen_complex_trans_table(mp, flagRefl=False):
     # mp.F3.metal = 'Ni'
     # mp.F3.diel = 'PMGI'
 
-    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact.npy' %
+    def table_id(lambdas):
+        """Identify all that a table depends on, for its file name."""
+        key = [mp.F3.substrate, mp.F3.metal, mp.F3.dielectric]
+        for value in (mp.t_Ti_nm, mp.aoi, mp.F3.d0fac, mp.t_metal_nm_vec,
+                      mp.t_diel_nm_vec, lambdas):
+            key.append(np.atleast_1d(value).astype(float).tolist())
+        return hashlib.sha1(repr(key).encode()).hexdigest()[:12]
+
+    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_%s_compact.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec),
          np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, mp.F3.dielectric,
          np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec), mp.dt_diel_nm,
-         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi))
+         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi,
+         table_id(mp.sbp_centers)))
     fn_cube_compact = os.path.join(localpath, 'data', 'material', fn_compact)
 
-    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full.npy' %
+    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_%s_full.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec), np.max(mp.t_metal_nm_vec), mp.dt_metal_nm,
          mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
          mp.dt_diel_nm, (1e9*mp.lambda0), 100*mp.fracBW, mp.Nsbp, mp.Nwpsbp,
-         mp.aoi))
+         mp.aoi, table_id(mp.full.lambdas)))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
     if flagRefl:
-- 
2.43.0


From 9932d3a3e8a8a5d589afdc5f838faddca680bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 078/112] fix: name of the annular mask generator in the HLC
 setup

---
 falco/hlc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 9deb07c..c13efbc 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -524,13 +524,13 @@ def setup_fpm_cosine(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
@@ -678,13 +678,13 @@ def setup_fpm(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
-- 
2.43.0


From 9f541269b9a5e8c717aad4ddd1f57327660a041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 079/112] fix: polar coordinates of the custom segmented pupil

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 3d3b842..e150924 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1558,7 +1558,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create coordinates
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
-    [THETA, RHO] = falco.util.cart2pol(X, Y)
+    [RHO, THETA] = falco.util.cart2pol(X, Y)
 
     inputs["apDia"] = inputs["Nbeam"]
     if('pistons' in inputs.keys()):
-- 
2.43.0


From 135f526209dca3cd1cd32907948518ea6bc07dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 080/112] fix: struts of the custom segmented pupil have the
 stated width

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index e150924..40d2f52 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1576,7 +1576,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create spiders
     if(wStrut > 0):
-        halfwidth = wStrut*2.*apRad
+        halfwidth = wStrut*apRad
         try:
             for ang in angStrutVec:
                 pupil = pupil*(1.-np.exp(-(RHO*np.sin(THETA-ang*np.pi/180.)/halfwidth)**hg_expon_spider) *
-- 
2.43.0


From dd730c21ef0341877ca151854948971cd1e3c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 081/112] fix: the field of a segmented mirror is that of its
 present segments

---
 falco/hexsegmirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index d4b3b43..a4f1142 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -115,7 +115,7 @@ def get_field( hexMirrorDict ):
         cenrow = ringNum*hexSep
         cencol = 0
         
-        if(missingSegments[segNum]==0):
+        if(missingSegments[segNum]==1):
             OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                              wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT)
         segNum = segNum + 1
@@ -135,7 +135,7 @@ def get_field( hexMirrorDict ):
                     #%disp(['Finished ring ',num2str(ringNum)]);
                     pass
                 else:
-                    if(missingSegments[segNum]==0):
+                    if(missingSegments[segNum]==1):
                         OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                                          wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT);
                         pass
-- 
2.43.0


From e7cb8dbf9f677112cec5d6bbc5f8da44b9cfaac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 082/112] fix: the field of a segmented mirror is not cut at
 its flat-to-flat diameter

---
 falco/hexsegmirror.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index a4f1142..e4a84e8 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -103,8 +103,7 @@ def get_field( hexMirrorDict ):
     else:
         missingSegments = np.ones(count_segments( numRings ),)
     
-    N1 = 2**falco.util.nextpow2(apDia)
-    OUT = np.zeros((N1,N1))
+    OUT = np.zeros((N,N))
     
     hexFlatDiam = (apDia-numRings*2*wGap)/(2*numRings+1)
     hexSep = hexFlatDiam + wGap
@@ -142,7 +141,7 @@ def get_field( hexMirrorDict ):
                     segNum += 1
                 stepnum += 1
 
-    return falco.util.pad_crop(OUT,N)
+    return OUT
 
 
 def get_support( hexMirrorDict ):
-- 
2.43.0


From 5b7e9da3a04d185c41af9365d37d350199e21713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 083/112] fix: segment pistons and tilts appear in the field of
 a segmented mirror

---
 falco/hexsegmirror.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index e4a84e8..f8f4f67 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -73,8 +73,9 @@ def add_hex_segment( centerRow, centerColumn, numRings, apDia, wGap, piston, til
 #            *np.exp(1i*2*pi*piston)
 #            *np.exp(1i*2*pi*tiltx/apDia*(X-centerColumn))
 #            *np.exp(1i*2*pi*tilty/apDia*(Y-centerRow))
-    HEXphz = 1.
-            
+    HEXphz = np.exp(1j*2*np.pi*(piston + (tiltx*(X-centerColumn)
+                                          + tilty*(Y-centerRow))/apDia))
+
     return arrayIn + HEXamp*HEXphz
 
 
@@ -103,7 +104,7 @@ def get_field( hexMirrorDict ):
     else:
         missingSegments = np.ones(count_segments( numRings ),)
     
-    OUT = np.zeros((N,N))
+    OUT = np.zeros((N,N), dtype=complex)
     
     hexFlatDiam = (apDia-numRings*2*wGap)/(2*numRings+1)
     hexSep = hexFlatDiam + wGap
-- 
2.43.0


From 21404cbeece8e8ddb474f698a475996c3c28a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 084/112] fix: segmented wavefront without omitted segments

---
 falco/proper/prop_hex_wavefront.py | 340 ++++++++++++++---------------
 1 file changed, 170 insertions(+), 170 deletions(-)

diff --git a/falco/proper/prop_hex_wavefront.py b/falco/proper/prop_hex_wavefront.py
index 945cf0a..699257b 100644
--- a/falco/proper/prop_hex_wavefront.py
+++ b/falco/proper/prop_hex_wavefront.py
@@ -1,170 +1,170 @@
-#   Copyright 2016, 2017 California Institute of Technology
-#   Users must agree to abide by the restrictions listed in the
-#   file "LegalStuff.txt" in the PROPER library directory.
-#
-#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
-#   Original IDL version by John Krist
-#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
-#
-
-
-import falco.proper as proper
-import numpy as np
-
-
-def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
-    """Compute transmission and wavefront phase errors for a segmented hexagonal
-    aperture and apply them to the current wavefront.
-
-    The hexagons making up the aperture have antialiased edges. Each segment
-    has user-defined hexagonal Zernike phase errors (up to Z22).
-
-    Parameters
-    ----------
-    wf : obj
-        WaveFront class object
-
-    nrings : int
-        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
-        surrounded by a ring of hexagons)
-
-    hexrad : float
-        The distance in meters from the center of a hexagonal segment to a
-        vertex.
-
-    hexsep : float
-        The distance between the centers of adjacent hexagonal segments.
-
-    zernike_val : numpy ndarray
-        Array of dimensions (22, nhex) where nhex is the number of hexagonal
-        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
-        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
-        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
-        manual for a list of them or look at the prop_hex_zernikes.py routine in
-        the PROPER library). The values are in meters of RMS wavefront error.
-        Even if the center segment is made dark by /DARKCENTER, there must be an
-        entry for it.
-
-
-    Returns
-    -------
-    aperture : numpy ndarray
-        Transmission map for a segmented hexagonal aperture
-
-    phase : numpy ndarray, optional
-        Wavefront phase errors for a segmented hexagonal aperture
-
-
-    Other Parameters
-    ----------------
-    DARKCENTER : bool
-        If set, the central hexagonal segment transmission will be set to 0.0.
-
-    NO_APPLY : bool
-        If set, the aperture and phase maps are created but not applied to the
-        wavefront.
-
-    OMIT=omit
-        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
-        specified, must include entries for the omitted segments, but they are ignored.
-
-    ROTATION : float
-        The counterclockwise rotation in degrees of the aperture about its center.
-
-    XCENTER, YCENTER : float
-        The offset in meters of the aperture from the center of the wavefront.
-        By default, the aperture is centered within the wavefront.
-
-    Original translation by Navtej Saini
-    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
-    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
-    2 May 2022 - JEK - fixed missing colons
-    """
-
-    if not "XCENTER" in kwargs:
-        xc = 0.
-    else:
-        xc = kwargs["XCENTER"]
-
-    if not "YCENTER" in kwargs:
-        yc = 0.
-    else:
-        yc = kwargs["YCENTER"]
-
-    if not "OMIT" in kwargs:
-        omit = -1
-    else:
-        omit = kwargs["OMIT"]
-
-    if "ROTATION" in kwargs:
-        angle = kwargs["ROTATION"]
-        anglerad = angle * np.pi / 180
-    else:
-        angle = 0.
-        anglerad =0.
-
-    n = proper.prop_get_gridsize(wf)
-    dx = proper.prop_get_sampling(wf)
-
-    aperture = np.zeros([n,n], dtype = np.float64)
-
-    ## 1 May 2018 - Navtej
-    ## Taking absolute value of zernike_val before summing up
-    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
-
-    if include_phase_errors:
-        zernike_index = np.arange(22, dtype=int) + 1
-        phase = np.zeros([n,n], dtype = np.float64)
-    else:
-        phase = 0
-
-    segi = 0
-
-    for iring in range(0, nrings+1):
-        x = hexsep * np.cos(30*np.pi/180) * iring
-        y = -nrings * hexsep + iring * hexsep * 0.5
-
-        for iseg in range(0, 2*nrings-iring+1):
-            # Create hex segment on one side
-            if segi not in omit:
-                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-      
-                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
-                    aperture += segment
-
-                segment = segment != 0
-
-                if include_phase_errors:
-                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-            segi += 1
-
-            # create hex segment on opposite side
-            if iring != 0:
-                if segi not in omit:
-                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-                    aperture += segment
-                    segment = segment != 0
-
-                    if include_phase_errors:
-                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-                segi += 1
-
-            y += hexsep
-
-    if not proper.switch_set("NO_APPLY",**kwargs):
-        proper.prop_multiply(wf, aperture)
-        if include_phase_errors:
-            proper.prop_add_phase(wf, phase)
-
-    if include_phase_errors:
-        return (aperture, phase)
-    else:
-        return aperture
+#   Copyright 2016, 2017 California Institute of Technology
+#   Users must agree to abide by the restrictions listed in the
+#   file "LegalStuff.txt" in the PROPER library directory.
+#
+#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
+#   Original IDL version by John Krist
+#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
+#
+
+
+import falco.proper as proper
+import numpy as np
+
+
+def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
+    """Compute transmission and wavefront phase errors for a segmented hexagonal
+    aperture and apply them to the current wavefront.
+
+    The hexagons making up the aperture have antialiased edges. Each segment
+    has user-defined hexagonal Zernike phase errors (up to Z22).
+
+    Parameters
+    ----------
+    wf : obj
+        WaveFront class object
+
+    nrings : int
+        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
+        surrounded by a ring of hexagons)
+
+    hexrad : float
+        The distance in meters from the center of a hexagonal segment to a
+        vertex.
+
+    hexsep : float
+        The distance between the centers of adjacent hexagonal segments.
+
+    zernike_val : numpy ndarray
+        Array of dimensions (22, nhex) where nhex is the number of hexagonal
+        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
+        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
+        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
+        manual for a list of them or look at the prop_hex_zernikes.py routine in
+        the PROPER library). The values are in meters of RMS wavefront error.
+        Even if the center segment is made dark by /DARKCENTER, there must be an
+        entry for it.
+
+
+    Returns
+    -------
+    aperture : numpy ndarray
+        Transmission map for a segmented hexagonal aperture
+
+    phase : numpy ndarray, optional
+        Wavefront phase errors for a segmented hexagonal aperture
+
+
+    Other Parameters
+    ----------------
+    DARKCENTER : bool
+        If set, the central hexagonal segment transmission will be set to 0.0.
+
+    NO_APPLY : bool
+        If set, the aperture and phase maps are created but not applied to the
+        wavefront.
+
+    OMIT=omit
+        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
+        specified, must include entries for the omitted segments, but they are ignored.
+
+    ROTATION : float
+        The counterclockwise rotation in degrees of the aperture about its center.
+
+    XCENTER, YCENTER : float
+        The offset in meters of the aperture from the center of the wavefront.
+        By default, the aperture is centered within the wavefront.
+
+    Original translation by Navtej Saini
+    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
+    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
+    2 May 2022 - JEK - fixed missing colons
+    """
+
+    if not "XCENTER" in kwargs:
+        xc = 0.
+    else:
+        xc = kwargs["XCENTER"]
+
+    if not "YCENTER" in kwargs:
+        yc = 0.
+    else:
+        yc = kwargs["YCENTER"]
+
+    if not "OMIT" in kwargs:
+        omit = []
+    else:
+        omit = kwargs["OMIT"]
+
+    if "ROTATION" in kwargs:
+        angle = kwargs["ROTATION"]
+        anglerad = angle * np.pi / 180
+    else:
+        angle = 0.
+        anglerad =0.
+
+    n = proper.prop_get_gridsize(wf)
+    dx = proper.prop_get_sampling(wf)
+
+    aperture = np.zeros([n,n], dtype = np.float64)
+
+    ## 1 May 2018 - Navtej
+    ## Taking absolute value of zernike_val before summing up
+    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
+
+    if include_phase_errors:
+        zernike_index = np.arange(22, dtype=int) + 1
+        phase = np.zeros([n,n], dtype = np.float64)
+    else:
+        phase = 0
+
+    segi = 0
+
+    for iring in range(0, nrings+1):
+        x = hexsep * np.cos(30*np.pi/180) * iring
+        y = -nrings * hexsep + iring * hexsep * 0.5
+
+        for iseg in range(0, 2*nrings-iring+1):
+            # Create hex segment on one side
+            if segi not in omit:
+                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+      
+                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
+                    aperture += segment
+
+                segment = segment != 0
+
+                if include_phase_errors:
+                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+            segi += 1
+
+            # create hex segment on opposite side
+            if iring != 0:
+                if segi not in omit:
+                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+                    aperture += segment
+                    segment = segment != 0
+
+                    if include_phase_errors:
+                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+                segi += 1
+
+            y += hexsep
+
+    if not proper.switch_set("NO_APPLY",**kwargs):
+        proper.prop_multiply(wf, aperture)
+        if include_phase_errors:
+            proper.prop_add_phase(wf, phase)
+
+    if include_phase_errors:
+        return (aperture, phase)
+    else:
+        return aperture
-- 
2.43.0


From e8ccf442a179797be119d9d14b1e8d439e3bfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 085/112] fix: hexagonal piston alone

---
 falco/proper/prop_hex_zernikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index fd17da4..a0bdf0c 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -103,7 +103,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
 
     r = np.sqrt(x**2 + y**2) / hexrad
     t = np.arctan2(y, x) - angle * np.pi/180.
-    zer = 0.
+    zer = np.zeros_like(r)
 
     for i in range(len(zcoeff)):
         iz = zindex[i]
-- 
2.43.0


From 7f75b692c47bb039dd06f6357fc2f90b2dafc609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 086/112] fix: collimating lens may equal the radius of the
 beam to rounding

---
 falco/proper/prop_lens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index d38ad6e..e7da829 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -53,7 +53,7 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     if (wf.z - wf.z_w0) != 0.0:     # lens is not at focus or entrance pupil
         gR_beam_old = (wf.z - wf.z_w0) + wf.z_Rayleigh**2 / (wf.z - wf.z_w0)
         gR_beam_old_inf = 0.
-        if gR_beam_old != lens_fl:
+        if 1./gR_beam_old != 1./lens_fl:
             gR_beam = 1./(1./gR_beam_old - 1./lens_fl)
             gR_beam_inf = 0
             if proper.verbose:
-- 
2.43.0


From a1e851369ba5d399e42254ca0d95a372d1c6831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 087/112] fix: lens after a propagation to a plane

---
 falco/proper/prop_lens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index e7da829..571df7d 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -118,7 +118,9 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     elif wf.propagator_type == "INSIDE__to_OUTSIDE":
         lens_phase = 1./lens_fl + 1./R_beam
     elif wf.propagator_type == "OUTSIDE_to_INSIDE_":
-        lens_phase = 1./lens_fl - 1./R_beam_old        
+        lens_phase = 1./lens_fl
+        if R_beam_old != 0.0:
+            lens_phase -= 1./R_beam_old
     elif  wf.propagator_type == "OUTSIDE_to_OUTSIDE":
         if R_beam_old == 0.0:
             lens_phase = 1./lens_fl + 1./R_beam
-- 
2.43.0


From 5921511fc9770eff60f08cb83aa9f516903dbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 088/112] fix: central part of the final field can be extracted

---
 falco/proper/prop_end.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/proper/prop_end.py b/falco/proper/prop_end.py
index ce54a4d..40ab2ad 100644
--- a/falco/proper/prop_end.py
+++ b/falco/proper/prop_end.py
@@ -49,6 +49,8 @@ def prop_end(wf, **kwargs):
     if "EXTRACT" in kwargs:
         EXTRACT = kwargs["EXTRACT"]
         ny, nx = wf.wfarr.shape
-        wf.wfarr = wf.wfarr[ny/2-EXTRACT/2:ny/2+EXTRACT/2,nx/2-EXTRACT/2:nx/2+EXTRACT/2]
+        y0 = ny//2 - EXTRACT//2
+        x0 = nx//2 - EXTRACT//2
+        wf.wfarr = wf.wfarr[y0:y0+EXTRACT, x0:x0+EXTRACT]
 
     return (wf.wfarr, sampling)
-- 
2.43.0


From f28d1efd7a3db90f8879be9497108f55ac85d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 089/112] fix: rounded rectangles can be drawn

---
 falco/proper/prop_rounded_rectangle.py | 32 +++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/falco/proper/prop_rounded_rectangle.py b/falco/proper/prop_rounded_rectangle.py
index aa4335b..683a958 100644
--- a/falco/proper/prop_rounded_rectangle.py
+++ b/falco/proper/prop_rounded_rectangle.py
@@ -55,22 +55,22 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix < 0:
         x1 = 0
     else:
-        x1 = xoff_pix
+        x1 = int(xoff_pix)
 
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = xoff_pix + rad_pix + 3
+        x2 = int(xoff_pix + rad_pix + 3)
                         
     if yoff_pix < 0:
         y1 = 0
     else:
-        y1 = yoff_pix
+        y1 = int(yoff_pix)
     
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = yoff_pix + rad_pix + 3
+        y2 = int(yoff_pix + rad_pix + 3)
     
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
@@ -82,22 +82,22 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix < 0:
         x1 = 0
     else:
-        x1 = xoff_pix
+        x1 = int(xoff_pix)
 
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = xoff_pix + rad_pix + 3
+        x2 = int(xoff_pix + rad_pix + 3)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
     else:
-        y1 = yoff_pix - rad_pix - 2
+        y1 = int(yoff_pix - rad_pix - 2)
         
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = yoff_pix + 1
+        y2 = int(yoff_pix + 1)
             
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
@@ -109,22 +109,22 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix - rad_pix - 2 < 0:
         x1 = 0
     else:
-        x1 = xoff_pix - rad_pix - 2
+        x1 = int(xoff_pix - rad_pix - 2)
         
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = xoff_pix + 1
+        x2 = int(xoff_pix + 1)
         
     if yoff_pix < 0:
         y1 = 0
     else:
-        y1 = yoff_pix
+        y1 = int(yoff_pix)
         
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = yoff_pix + rad_pix + 3
+        y2 = int(yoff_pix + rad_pix + 3)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
@@ -136,22 +136,22 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix - rad_pix - 2 < 0:
         x1 = 0
     else:
-        x1 = xoff_pix - rad_pix - 2
+        x1 = int(xoff_pix - rad_pix - 2)
         
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = xoff_pix + 1
+        x2 = int(xoff_pix + 1)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
     else:
-        y1 = yoff_pix - rad_pix - 2
+        y1 = int(yoff_pix - rad_pix - 2)
         
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = yoff_pix + 1
+        y2 = int(yoff_pix + 1)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
-- 
2.43.0


From 0a271791f855d06e50860a887ae3dcce22cfb543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 090/112] fix: amplitude error maps can be applied

---
 falco/proper/prop_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index bc2e502..359dfad 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -89,7 +89,7 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
         If map type is MIRROR_SURFACE, WAVEFRONT, or AMPLITUDE.
     """
 
-    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper_switch_set("MICRONS",**kwargs)):
+    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper.switch_set("MICRONS",**kwargs)):
         raise SystemExit("ERRORMAP: Cannot specify NM or MICRON for an amplitude map")
     
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
-- 
2.43.0


From 7918df61b5b9a407fc7bb592a48d64e34f99e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 091/112] fix: requested size of a pixellated image is kept

---
 falco/proper/prop_pixellate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_pixellate.py b/falco/proper/prop_pixellate.py
index 79b8324..6dfb8ee 100644
--- a/falco/proper/prop_pixellate.py
+++ b/falco/proper/prop_pixellate.py
@@ -70,7 +70,7 @@ def prop_pixellate(image_in, sampling_in, sampling_out, n_out = 0):
     
     # Image is integrated over pixels but has original sampling; now, resample
     # pixel sampling
-    if n_out != 0:
+    if n_out == 0:
         n_out = int(np.fix(n_in * mag))
         
     new = proper.prop_magnify(convolved_image, mag, n_out)
-- 
2.43.0


From 32610ff12890def6a22bf4fbec97719ba58f18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 092/112] fix: error maps shift along y by the shift in y

---
 falco/proper/prop_resamplemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index 8369f27..b95c982 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -63,7 +63,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     
     y = np.arange(n, dtype = np.float64) - int(n/2)
     y = y * proper.prop_get_sampling(wf) / pixscale
-    y += yc - xshift/pixscale
+    y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
         dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
-- 
2.43.0


From 19799fa31fc353d4427469186b97a784f4dea213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 093/112] fix: centre of an error map that is not square

---
 falco/proper/prop_readmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_readmap.py b/falco/proper/prop_readmap.py
index 88815f6..33e2d30 100644
--- a/falco/proper/prop_readmap.py
+++ b/falco/proper/prop_readmap.py
@@ -75,8 +75,8 @@ def prop_readmap(wf, filename, xshift = 0, yshift = 0, **kwargs):
     
     if not "XC_MAP" in kwargs:
         s = dmap.shape
-        xc = s[0]//2
-        yc = s[1]//2
+        xc = s[1]//2
+        yc = s[0]//2
     else:
         xc = kwargs["XC_MAP"]
         yc = kwargs["YC_MAP"]
-- 
2.43.0


From 027d406145c5ac2ade8a318baae018e9ea121dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 094/112] fix: saved state is restored

---
 falco/proper/prop_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_state.py b/falco/proper/prop_state.py
index fcd75a2..b2d0354 100644
--- a/falco/proper/prop_state.py
+++ b/falco/proper/prop_state.py
@@ -44,9 +44,9 @@ def prop_state(wf):
     proper.n = int(0)
     proper.first_pass = np.fix(0)
     
-    statedata = np.load(statefile_lam)
+    statedata = np.load(statefile_lam, allow_pickle=True)
     proper.total_original_pupil = statedata["total_original_pupil"]
-    wf = statedata["wf"].tolist()
+    wf.__dict__.update(statedata["wf"].item().__dict__)
     proper.n = wf.wfarr.shape[0]
         
     return
-- 
2.43.0


From b441caa477b4d49fd7061007490d959dc76d202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 095/112] fix: ending the saved states removes their files and
 no others

---
 falco/proper/prop_end_savestate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_end_savestate.py b/falco/proper/prop_end_savestate.py
index 3738d59..e4f79fa 100644
--- a/falco/proper/prop_end_savestate.py
+++ b/falco/proper/prop_end_savestate.py
@@ -31,7 +31,7 @@ def prop_end_savestate():
 
     statefile = proper.statefile
 
-    sfiles = glob('*' + statefile)
+    sfiles = glob('*' + statefile + '.npz') if statefile else []
     if len(sfiles) > 0:
         for sfile in sfiles:
             os.remove(sfile)
-- 
2.43.0


From 4dc279aff9a1eae598f1599cc6d7fb30f3c62d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 096/112] fix: wavelength file may have a single line

---
 falco/proper/prop_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_run.py b/falco/proper/prop_run.py
index 612aefd..4a2bc91 100644
--- a/falco/proper/prop_run.py
+++ b/falco/proper/prop_run.py
@@ -113,7 +113,7 @@ def prop_run(routine_name, lambda0, gridsize, **kwargs):
 
     if type(lambda0) == str:
         try:
-            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1))
+            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1), ndmin = 2)
         except IOError:
             raise IOError("Unable to open wavelength file %s" %(lambda0))
 
-- 
2.43.0


From 9c4fb4adfcd7c471ebacb2ee6ec3b120ac710851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 097/112] fix: circles and ellipses may lie off the grid

---
 falco/proper/prop_ellipse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/falco/proper/prop_ellipse.py b/falco/proper/prop_ellipse.py
index 9d8becd..e69b835 100644
--- a/falco/proper/prop_ellipse.py
+++ b/falco/proper/prop_ellipse.py
@@ -105,8 +105,6 @@ def prop_ellipse(wf, xradius, yradius, xc = 0.0, yc = 0.0, **kwargs):
     xr = (x * cost - y * sint) / xrad_pix
     yr = (x * sint + y * cost) / yrad_pix
     r = np.sqrt(xr*xr + yr*yr)
-    drx = np.abs(r[0,1] - r[0,0])
-    dry = np.abs(r[1,0] - r[0,0])
 
     delx = 1.0 / xrad_pix
     dely = 1.0 / yrad_pix
-- 
2.43.0


From 209c7e9ce1bf4731f6b7ec0900adb6c0cbc84fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 098/112] fix: table lists beam diameters, not radii, after
 propagations

---
 falco/proper/prop_propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_propagate.py b/falco/proper/prop_propagate.py
index 524634a..30ea529 100644
--- a/falco/proper/prop_propagate.py
+++ b/falco/proper/prop_propagate.py
@@ -78,7 +78,7 @@ def prop_propagate(wf, dz, surface_name = "", **kwargs):
     if proper.do_table:
         proper.sampling_list[proper.action_num] = wf.dx
         proper.distance_list[proper.action_num] = dz
-        proper.beam_diam_list[proper.action_num] = 1 * proper.prop_get_beamradius(wf)
+        proper.beam_diam_list[proper.action_num] = 2 * proper.prop_get_beamradius(wf)
         
         if surface_name != "":
            proper.surface_name_list[proper.action_num] = surface_name
-- 
2.43.0


From 1675023d08a011d07aaaa865804c8ad35d00ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 099/112] fix: Zernikes can be fitted to maps that are not
 square

---
 falco/proper/prop_fit_zernikes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/falco/proper/prop_fit_zernikes.py b/falco/proper/prop_fit_zernikes.py
index fac4c35..73dc4e9 100644
--- a/falco/proper/prop_fit_zernikes.py
+++ b/falco/proper/prop_fit_zernikes.py
@@ -75,8 +75,7 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
     if eps > 0 and nzer > 22:
         raise ValueError("PROP_FIT_ZERNIKES: ERROR: Limited to first 22 Obscured Zernikes.")            
 
-    nx = wavefront0.shape[0]
-    ny = wavefront0.shape[1]
+    ny, nx = wavefront0.shape
     wavefront = wavefront0
     pupil = pupil0
     
@@ -177,7 +176,7 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
         else: 
             fitv = np.zeros((nw)) 
             for i in range(nzer): fitv += zcoeff[i] * ab[:,i]
-            fit = np.reshape(fitv, (nx, ny))
+            fit = np.reshape(fitv, (ny, nx))
 
     if k==1:
         return (zcoeff, fit) 
-- 
2.43.0


From 0a86f6cf003a9cda559d058b87b840d7d7a0eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 100/112] fix: Zernikes can be fitted about a given centre

---
 falco/proper/prop_fit_zernikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_fit_zernikes.py b/falco/proper/prop_fit_zernikes.py
index 73dc4e9..bb2ed1b 100644
--- a/falco/proper/prop_fit_zernikes.py
+++ b/falco/proper/prop_fit_zernikes.py
@@ -79,8 +79,8 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
     wavefront = wavefront0
     pupil = pupil0
     
-    if not "XC" in kwargs: xc = int(nx / 2)
-    if not "YC" in kwargs: yc = int(ny / 2)        
+    xc = kwargs.get("XC", int(nx / 2))
+    yc = kwargs.get("YC", int(ny / 2))
 
     if proper.switch_set("FIT",**kwargs):
         kval = [0,1]
-- 
2.43.0


From b29a5f32ad7628aa3a05c5d111f172f118ab259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 101/112] fix: rotation of the frequencies of a PSD map

---
 falco/proper/prop_psd_errormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 61b4d45..8fc0bb6 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -161,8 +161,8 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         xk = np.tile(np.arange(n, dtype = np.float64), (n,1)) - int(n/2)
         yk = xk.T
 
-        xk = xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle)
-        yk = xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle)
+        xk, yk = (xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle),
+                  xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle))
         yk = yk * np.cos(-inc_angle)
         kpsd = np.sqrt(xk**2 + yk**2) * dk   # cycles/meter
         if proper.switch_set("TPF",**kwargs):
-- 
2.43.0


From ada79d2a2a8adcaee47a287a96f8f41dda9f5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 102/112] fix: frequency limit of a PSD map does not weight the
 PSD by frequency

---
 falco/proper/prop_psd_errormap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 8fc0bb6..7d90c73 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -180,8 +180,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         # if specified, zero-out spatial frequencies > max_frequency
         if "MAX_FREQUENCY" in kwargs:
             max_frequency = kwargs["MAX_FREQUENCY"]
-            kpsd[kpsd > max_frequency] = 0.0
-            psd2d *= (kpsd)
+            psd2d[kpsd > max_frequency] = 0.0
 
         if proper.prop_use_fftw() == 1:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
-- 
2.43.0


From 615356563889cc8b625f78ef8ad07cd56687deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 103/112] fix: creating a PSD map does not change which FFT is
 used

---
 falco/proper/prop_psd_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 7d90c73..6617e00 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -182,7 +182,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
             max_frequency = kwargs["MAX_FREQUENCY"]
             psd2d[kpsd > max_frequency] = 0.0
 
-        if proper.prop_use_fftw() == 1:
+        if proper.use_fftw:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
             proper.prop_fftw(dmap_fft, directionFFTW = 'FFTW_FORWARD')
             dmap_fft /= np.size(psd2d)
-- 
2.43.0


From b661144a0c381d95bcc1aff37d71125a4765b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 104/112] fix: images rotate about their centre, or the given
 one, with the given shift

---
 falco/proper/prop_rotate.py | 66 +++++++++++++------------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/falco/proper/prop_rotate.py b/falco/proper/prop_rotate.py
index 4380588..2246ff3 100644
--- a/falco/proper/prop_rotate.py
+++ b/falco/proper/prop_rotate.py
@@ -13,9 +13,9 @@ import numpy as np
 
 if not proper.use_cubic_conv:
     try:
-        from scipy.ndimage import rotate
+        from scipy.ndimage import map_coordinates
     except:
-        from scipy.ndimage.interpolation import rotate
+        from scipy.ndimage.interpolation import map_coordinates
         
 
 
@@ -50,47 +50,27 @@ def prop_rotate(old_image, theta, **kwargs):
     MISSING : float
         Value to set extrapolated pixels.        
     """
-    if old_image.dtype == np.dtype("complex128") or old_image.dtype == np.dtype("complex64"):
-        is_complex = 1
-    else:
-        is_complex = 0
-        
-    new_image = np.copy(old_image)
-    
+    ny, nx = old_image.shape
+    xc = kwargs.get("XC", nx//2)
+    yc = kwargs.get("YC", ny//2)
+    missing = kwargs.get("MISSING", 0.)
+
+    t = -theta * np.pi / 180.
+    y0, x0 = np.mgrid[0:ny, 0:nx]
+    x0 = x0 - xc - kwargs.get("XSHIFT", 0.)
+    y0 = y0 - yc - kwargs.get("YSHIFT", 0.)
+    xi = x0 * np.cos(t) - y0 * np.sin(t) + xc
+    yi = x0 * np.sin(t) + y0 * np.cos(t) + yc
+
     if proper.use_cubic_conv:
-        n = old_image.shape[0]
-    
-        if not "XC" in kwargs:
-            XC = int(n / 2)
-        
-        if not "YC" in kwargs:
-            YC = int(n / 2)
-        
-        if not "XSHIFT" in kwargs:
-            xshift = 0.
-    
-        if not "YSHIFT" in kwargs:
-            yshift = 0.        
-        
-        if not "MISSING" in kwargs:
-            missing = 0.    
-        
-        t = -theta * np.pi / 180.
-    
-        x0 = np.arange(n, dtype = np.float64) - XC - xshift
-    
-        for j in range(n):
-            y0 = j - YC - yshift
-            xi = x0 * np.cos(t) - y0 * np.sin(t) + YC
-            yi = x0 * np.sin(t) + y0 * np.cos(t) + XC
-        
-            new_image[j,:] = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
+        new_image = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
+        outside = (xi < 0) | (xi > nx - 1) | (yi < 0) | (yi > ny - 1)
+        new_image[outside] = missing
+    elif np.iscomplexobj(old_image):
+        new_image = np.empty(old_image.shape, dtype = old_image.dtype)
+        new_image.real = map_coordinates(old_image.real, [yi, xi], order = 3, cval = np.real(missing))
+        new_image.imag = map_coordinates(old_image.imag, [yi, xi], order = 3, cval = np.imag(missing))
     else:
-        theta = -1. * theta
-        if is_complex:
-            new_image.real = rotate(old_image.real, theta, reshape = False, prefilter = True) 
-            new_image.imag = rotate(old_image.imag, theta, reshape = False, prefilter = True)
-        else:
-            new_image = rotate(old_image, theta, reshape = False, prefilter = False)
-    
+        new_image = map_coordinates(old_image, [yi, xi], order = 3, cval = missing)
+
     return new_image
-- 
2.43.0


From 0b1aec12209e43fbdf19a982d9ff52741a247334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 105/112] fix: rounded rectangles may lie partly off the grid

---
 falco/proper/prop_rounded_rectangle.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/falco/proper/prop_rounded_rectangle.py b/falco/proper/prop_rounded_rectangle.py
index 683a958..7edfb59 100644
--- a/falco/proper/prop_rounded_rectangle.py
+++ b/falco/proper/prop_rounded_rectangle.py
@@ -60,7 +60,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = int(xoff_pix + rad_pix + 3)
+        x2 = max(int(xoff_pix + rad_pix + 3), 0)
                         
     if yoff_pix < 0:
         y1 = 0
@@ -70,7 +70,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = int(yoff_pix + rad_pix + 3)
+        y2 = max(int(yoff_pix + rad_pix + 3), 0)
     
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
@@ -87,7 +87,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = int(xoff_pix + rad_pix + 3)
+        x2 = max(int(xoff_pix + rad_pix + 3), 0)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
@@ -97,7 +97,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = int(yoff_pix + 1)
+        y2 = max(int(yoff_pix + 1), 0)
             
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
@@ -114,7 +114,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = int(xoff_pix + 1)
+        x2 = max(int(xoff_pix + 1), 0)
         
     if yoff_pix < 0:
         y1 = 0
@@ -124,7 +124,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = int(yoff_pix + rad_pix + 3)
+        y2 = max(int(yoff_pix + rad_pix + 3), 0)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
@@ -141,7 +141,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = int(xoff_pix + 1)
+        x2 = max(int(xoff_pix + 1), 0)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
@@ -151,7 +151,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = int(yoff_pix + 1)
+        y2 = max(int(yoff_pix + 1), 0)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
-- 
2.43.0


From f22d8cba0355948254e70ab6601351df203c8e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:06 +0000
Subject: [PATCH 106/112] fix: interpixel axes of the CGI-180718 pupil span its
 array

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 40d2f52..d47f493 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -452,7 +452,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) + magFac*Nbeam)
 
     if centering.lower() == 'interpixel':
-        xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
+        xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
     else:
         xs = np.linspace(-(Narray/2), Narray/2-1, Narray)/Nbeam
 
-- 
2.43.0


From 42de0a40fc7dfce74990c681d2586685c1954879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 107/112] fix: images of the PROPER layouts keep the shape of a
 camera that is not square

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 4308474..604314a 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -180,9 +180,9 @@ def full(mp, modvar, isNorm=True):
 
         [Eout, sampling] = proper.prop_run(
             fn_proper, wvl*1e6,
-            int(2**falco.util.nextpow2(mp.Fend.Nxi)),
+            int(2**falco.util.nextpow2(max(mp.Fend.Nxi, mp.Fend.Neta))),
             QUIET=True, PASSVALUE=optval)
-        Eout = pad_crop(Eout, (mp.Fend.Nxi, mp.Fend.Nxi))
+        Eout = pad_crop(Eout, (mp.Fend.Neta, mp.Fend.Nxi))
 
         if not normFac == 0:
             Eout = Eout/np.sqrt(normFac)
-- 
2.43.0


From 8d2c42d0ac8262e47b6b9c5c7134b5ff29ca0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:06 +0000
Subject: [PATCH 108/112] fix: settings of the full model given as items or
 loaded from YAML reach the PROPER prescription

---
 falco/model/models.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 604314a..bdadd78 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -135,7 +135,7 @@ def full(mp, modvar, isNorm=True):
 
     elif mp.layout.lower() == 'proper':
 
-        optval = copy.copy(vars(mp.full))
+        optval = get_prescription_options(mp)
 
         if any(mp.dm_ind == 1):
             optval['use_dm1'] = True
@@ -164,7 +164,7 @@ def full(mp, modvar, isNorm=True):
         del optval
 
     elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
-        optval = copy.copy(vars(mp.full))
+        optval = get_prescription_options(mp)
         optval['use_dm1'] = True
         optval['use_dm2'] = True
         optval['dm1_m'] = mp.dm1.V*mp.dm1.VtoH + mp.full.dm1.flatmap
@@ -190,6 +190,29 @@ def full(mp, modvar, isNorm=True):
     return Eout
 
 
+def get_prescription_options(mp):
+    """
+    Return the settings of the full model for use by a PROPER prescription.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+
+    Returns
+    -------
+    optval : dict
+        All the settings in mp.full, whether assigned as fields or as items
+        (e.g., when loaded from a YAML file).
+    """
+    optval = copy.copy(vars(mp.full))
+    for key in optval.pop('data', {}):
+        if key not in optval:
+            optval[key] = mp.full[key]
+
+    return optval
+
+
 def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
     """
     Truth model with a simple layout used to generate images in simulation.
-- 
2.43.0


From 104213d26725e72af3c7f6bcfcad461abd170c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:06 +0000
Subject: [PATCH 109/112] fix: Zernike sensitivities of a PROPER prescription
 leave its settings as they were

---
 falco/zern.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 12da4a9..08fe8a2 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -1,5 +1,4 @@
 """Functions for Zernike generation and sensitivity calculations."""
-import copy
 import math
 import pdb
 
@@ -315,23 +314,25 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     E = mp.P1.full.E
     E0 = E.copy()
 
-    # Initialize the Zernike modes to include as empty if the variable doesn't exist already
-    if not hasattr(mp.full, 'zindex'):
-        mp.full.zindex = np.array([])
-        mp.full.zval_m = np.array([])
-    zindex0 = copy.copy(mp.full.zindex)  # Save the original
-    zval_m0 = copy.copy(mp.full.zval_m)  # Save the original
+    # Save the Zernike modes already included in the PROPER full model
+    zern0 = {key: vars(mp.full)[key] for key in ('zindex', 'zval_m', 'zval')
+             if key in vars(mp.full)}
 
     if(mp.full.flagPROPER):  # WARNING: THIS OPTION HAS NOT BEEN TESTED
 
         # Put the Zernike index and coefficent in the vectors used by the PROPER full model
-        if(any(zindex0 == indsZnoll[izern])):  # Add the delta to an existing entry
-            zind = np.nonzero(zindex0 == indsZnoll[izern])[0]
-            mp.full.zval_m[zind] = mp.full.zval_m[zind] + mp.full.ZrmsVal
+        zindex = np.atleast_1d(getattr(mp.full, 'zindex', [])).astype(int)
+        zval_m = np.array(getattr(mp.full, 'zval_m',
+                                  getattr(mp.full, 'zval', [])),
+                          dtype=float, ndmin=1)
+        if(any(zindex == indsZnoll[izern])):  # Add the delta to an existing entry
+            zval_m[zindex == indsZnoll[izern]] += mp.full.ZrmsVal
         else:  # Concatenate the Zenike modes to the vector if it isn't included already
-            mp.full.zindex = np.concatenate((zindex0, np.array([indsZnoll[izern]]))).astype(int)
-            mp.full.zval_m = np.concatenate((zval_m0, np.array([mp.full.ZrmsVal])))  # [meters]
-        mp.full.zval = mp.full.zval_m  # for PROPER models defined differently
+            zindex = np.concatenate((zindex, np.array([indsZnoll[izern]]))).astype(int)
+            zval_m = np.concatenate((zval_m, np.array([mp.full.ZrmsVal])))  # [meters]
+        mp.full.zindex = zindex
+        mp.full.zval_m = zval_m
+        mp.full.zval = zval_m  # for PROPER models defined differently
 
     else:  # Include the Zernike map at the input pupil for the FALCO full model
         ZernMap = np.squeeze(gen_norm_zern_maps(mp.P1.full.Nbeam, mp.centering,
@@ -343,8 +344,9 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
 
     Estar = falco.model.full(mp, modvar)
     mp.P1.full.E = E0  # Reset to original value
-    mp.full.zindex = zindex0
-    mp.full.zval_m = zval_m0
+    for key in ('zindex', 'zval_m', 'zval'):  # Reset to original values
+        vars(mp.full).pop(key, None)
+    vars(mp.full).update(zern0)
 
     return Estar
 
-- 
2.43.0


From 2db7ee41157944745687d0d8edf6f94613233e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:06 +0000
Subject: [PATCH 110/112] fix: field without the FPM is centred in a coarser
 Lyot plane for interpixel centering

---
 falco/model/models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index bdadd78..3ca1389 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1033,10 +1033,18 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
             EP4 = pad_crop(EP4,
                            falco.util.ceil_even(padFac*mp.P1.compact.Nbeam))
 
+            # The downsampling function assumes pixel centering.
+            if mp.centering == 'interpixel':
+                offset = 0.5*(mp.P4.compact.Nbeam/mp.P1.compact.Nbeam - 1)
+            else:
+                offset = 0
+
             EP4tempReal = falco.mask.rotate_shift_downsample_pupil_mask(
-                np.real(EP4), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam, 0, 0, 0)
+                np.real(EP4), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam,
+                offset, offset, 0)
             EP4tempImag = falco.mask.rotate_shift_downsample_pupil_mask(
-                np.imag(EP4), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam, 0, 0, 0)
+                np.imag(EP4), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam,
+                offset, offset, 0)
 
             EP4 = EP4tempReal + 1j*EP4tempImag
             # Preserve summed intensity in the pupil:
-- 
2.43.0


From cb2c9181999ea9ed999e2f24f9fdc7406f7d0302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:20 +0000
Subject: [PATCH 111/112] fix: equations of high Zernike modes are neither cut
 short nor rounded

---
 falco/proper/prop_noll_zernikes.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/falco/proper/prop_noll_zernikes.py b/falco/proper/prop_noll_zernikes.py
index e6c5370..eda8a45 100644
--- a/falco/proper/prop_noll_zernikes.py
+++ b/falco/proper/prop_noll_zernikes.py
@@ -11,13 +11,9 @@
 #                factorial from right module (thanks to Brandon Dube)
 
 
-import numpy as np
+from math import factorial
 
-import scipy
-if scipy.__version__ > '1':
-    from scipy.special import factorial
-else:
-    from scipy.misc import factorial
+import numpy as np
 
 import falco.proper as proper
 
@@ -86,7 +82,7 @@ def prop_noll_zernikes(maxz, **kwargs):
     max_r_power = 0
     max_theta_multiplier = 0
 
-    z_list = np.zeros(maxz+1, dtype = "S250")    # z_list[0] is always blank
+    z_list = [""]*(maxz+1)    # z_list[0] is always blank
     iz = 1
     n = 0
 
@@ -110,9 +106,9 @@ def prop_noll_zernikes(maxz, **kwargs):
                     continue
 
                 for s in range(0, (n-m)//2 + 1):
-                    term_top = int((-1)**s) * int(factorial(n-s))
-                    term_bottom = int(factorial(s)) * int(factorial((n+m)/2-s)) * int(factorial((n-m)/2 - s))
-                    term_val = int(term_top / term_bottom)
+                    term_top = int((-1)**s) * factorial(n-s)
+                    term_bottom = factorial(s) * factorial((n+m)//2 - s) * factorial((n-m)//2 - s)
+                    term_val = term_top // term_bottom    # always an integer
                     term = str(np.abs(term_val)).strip() + ".0"
                     term_r = int(n - 2*s)
                     rpower = str(term_r).strip()
@@ -181,6 +177,8 @@ def prop_noll_zernikes(maxz, **kwargs):
 
         n += 1
 
+    z_list = np.array(z_list, dtype="S")
+
     if proper.switch_set("EXTRA_VALUES",**kwargs):
         return (z_list, max_r_power, max_theta_multiplier)
     else:
-- 
2.43.0


From fe9c008668d9fd0fb6e23562e0a3d3d4dc864546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 112/112] fix: simple PSD error maps of odd size have a centred
 spectrum

---
 falco/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index a4da7fd..5f70db8 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -604,10 +604,10 @@ def gen_simple_psd_errormap(N, alpha, mirror_figure):
     aber = np.random.rand(N, N)
     FT = np.fft.fft2(aber)
 
-    x = np.tile(np.arange(N) - N/2, [N, 1]).T
-    y = np.tile(np.arange(N) - N/2, [N, 1])
+    x = np.tile(np.arange(N) - N//2, [N, 1]).T
+    y = np.tile(np.arange(N) - N//2, [N, 1])
 
-    envelope = np.fft.fftshift(1./(x**2 + y**2)**(alpha/4))
+    envelope = np.fft.ifftshift(1./(x**2 + y**2)**(alpha/4))
     envelope[0, 0] = 0  # DC component undefined, set to 0
 
     FT = FT * envelope
-- 
2.43.0

