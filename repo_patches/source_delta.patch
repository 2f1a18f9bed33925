From 2d20cf158233a3fbb8f04dfcc23d98ec97691494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 01/57] fix: keep gain, crop, border removal and float
 conversion when the mask is guessed

For ndarray and HDU inputs the guessed mask was built from the raw input,
replacing the pixel data that had already been cropped, scaled and converted.
---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From d5c5e779f17ac8fc71570227b7301f1b8e255b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 02/57] fix: accept an HDUList without mask extension

astropy writes EXTEND=T in every primary header, so indexing extension 1 of a
list holding only a primary HDU raised IndexError (KeyError without the card).
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..57fbb39 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -365,7 +365,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From e81bed772d0eba763d6cdc0251fa0416d8b4f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 03/57] fix: mask non finite pixels whatever the origin of the
 mask

NaN and infinite pixels stayed unmasked with an explicit mask, with a mask
extension, and for FITS files whose header has no EXTEND=T card.
---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 57fbb39..fc3397a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -460,6 +460,9 @@ class SingleImage(object):
         )
         self.__data.mask = ma.mask_or(self.__data.mask, mask_lower.mask)
         self.__data.mask = ma.mask_or(self.__data.mask, mask_greater.mask)
+        self.__data.mask = ma.mask_or(
+            self.__data.mask, ~np.isfinite(self.__data.data)
+        )
         added_pixels = (
             self.__data.mask.sum() if self.__data.mask.shape != () else 0
         ) - initial_mask_count
-- 
2.43.0


From 925e1f1e5b759138324a4444faf1813097c3b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 04/57] fix: honour a crop with a zero upper margin

data[a:-0] is empty, so cropping only one edge of an axis left no pixels.
---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index fc3397a..168ae9d 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,8 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            nx, ny = self.__data.shape
+            self.__data = self.__data[dx[0] : nx - dx[1], dy[0] : ny - dy[1]]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From eb03e8a53a78a2e8ecf438cfdadb6d204931a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 05/57] fix: remove exactly the zero padding when borders are
 requested

Row and column scans were swapped: a border on one axis only, or of different
widths, was left in place while columns with data were dropped.
---
 properimage/single_image.py | 50 ++++++-------------------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 168ae9d..d2bcbac 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,49 +213,13 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
+            filled = self.__data.data != 0
+            rows = np.flatnonzero(filled.any(axis=1))
+            cols = np.flatnonzero(filled.any(axis=0))
+            if rows.size == 0:
+                raise ValueError("Image has only zero valued pixels")
+            ldx, rdx = rows[0], rows[-1] + 1
+            ldy, rdy = cols[0], cols[-1] + 1
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
-- 
2.43.0


From 05767729a6c8a232b5a08daa56b6491b358dd724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 06/57] fix: keep a mask registered with the pixels after crop
 or border removal

A full frame mask was poured flat into the cut frame, which scrambled it, and a
mask of any other shape was accepted silently.
---
 properimage/single_image.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index d2bcbac..06f443d 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -211,6 +211,8 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        self.__full_shape = self.__data.shape
+        self.__window = (slice(None), slice(None))
         if self.borders:
             logger.debug("Detecting and removing image borders")
             filled = self.__data.data != 0
@@ -221,7 +223,8 @@ class SingleImage(object):
             ldx, rdx = rows[0], rows[-1] + 1
             ldy, rdy = cols[0], cols[-1] + 1
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
-            self.__data = self.__data[ldx:rdx, ldy:rdy]
+            self.__window = (slice(ldx, rdx), slice(ldy, rdy))
+            self.__data = self.__data[self.__window]
             logger.debug(
                 f"Data shape after border removal: {self.__data.shape}"
             )
@@ -230,6 +233,11 @@ class SingleImage(object):
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
             nx, ny = self.__data.shape
             self.__data = self.__data[dx[0] : nx - dx[1], dy[0] : ny - dy[1]]
+            x0, y0 = (sl.start or 0 for sl in self.__window)
+            self.__window = (
+                slice(x0 + dx[0], x0 + nx - dx[1]),
+                slice(y0 + dy[0], y0 + ny - dy[1]),
+            )
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
@@ -275,6 +283,17 @@ class SingleImage(object):
             logger.debug("Extracting header from PrimaryHDU")
             self.__header = img.header
 
+    def _window_mask(self, mask):
+        """Cut a full frame mask like the pixel data was cut."""
+        if mask.shape == self.__full_shape:
+            return mask[self.__window]
+        if mask.shape == self.__data.shape:
+            return mask
+        raise ValueError(
+            f"Mask shape {mask.shape} does not match image shape "
+            f"{self.__full_shape}"
+        )
+
     @property
     def mask(self):
         """Get mask property value."""
@@ -285,7 +304,7 @@ class SingleImage(object):
         logger.debug(f"Setting mask, input type: {type(mask).__name__}")
         if isinstance(mask, str):
             logger.info(f"Loading mask from file: {mask}")
-            fitsmask = fits.getdata(mask)
+            fitsmask = self._window_mask(fits.getdata(mask))
             logger.debug(
                 f"Mask shape: {fitsmask.shape}, "
                 f"median: {np.median(fitsmask)}, "
@@ -311,7 +330,7 @@ class SingleImage(object):
             logger.debug(
                 f"Using provided numpy array as mask, shape: {mask.shape}"
             )
-            self.__data.mask = mask
+            self.__data.mask = self._window_mask(mask)
             logger.info(
                 f"Applied array mask: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -334,7 +353,7 @@ class SingleImage(object):
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-                    fitsmask = self.__img[1].data
+                    fitsmask = self._window_mask(self.__img[1].data)
                     logger.debug(
                         f"Extension mask shape: {fitsmask.shape}, median: "
                         f"{np.median(fitsmask)}"
@@ -364,7 +383,7 @@ class SingleImage(object):
                                     "FITS file has extensions, "
                                     "loading mask from extension 1"
                                 )
-                                fitsmask = ff[1].data
+                                fitsmask = self._window_mask(ff[1].data)
                                 logger.debug(
                                     f"Extension mask median: "
                                     f"{np.median(fitsmask)}"
-- 
2.43.0


From 8fc7d259df210562c862b4651f680301cedf56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 07/57] fix: return a mask array from subtract and coadd when
 no pixel is bad

np.ma.mask_or shrinks an all False mask to a scalar, so the documented bad pixel
array came back as a bare False.
---
 properimage/operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..eea62bf 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -145,7 +145,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -450,7 +450,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -540,7 +540,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -561,7 +561,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From a9fea7ac88889ca1279c2f5a97e61eb26e1743ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 08/57] fix: coadd with more workers than images, and split in
 exactly num chunks

Accumulated float steps gave chunk_it an extra chunk for some sizes, and an
empty chunk made coadd raise IndexError.
---
 properimage/operations.py |  2 +-
 properimage/utils.py      | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index eea62bf..df8700f 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -516,7 +516,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     n_jobs = n_procs
     if n_jobs > 1:
         logger.info(f"Using parallel processing with {n_jobs} workers")
-        chunks = list(u.chunk_it(img_list, n_jobs))
+        chunks = [c for c in u.chunk_it(img_list, n_jobs) if len(c) > 0]
         ti = time.time()
         results = Parallel(n_jobs=n_jobs, backend="threading")(
             delayed(process_chunk_joblib)(chunk, global_shape)
diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..3f042af 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -378,12 +378,10 @@ def chunk_it(seq, num):
     Sorted list.
     List of chunks containing the data splited in num parts.
     """
-    avg = len(seq) / float(num)
-    out = []
-    last = 0.0
-    while last < len(seq):
-        out.append(seq[int(last) : int(last + avg)])
-        last += avg
+    size = len(seq)
+    out = [
+        seq[i * size // num : (i + 1) * size // num] for i in range(num)
+    ]
     try:
         return sorted(out, reverse=True)
     except TypeError:
-- 
2.43.0


From 69150639062ddef7ca9a8e278cc2a4d0be11ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 09/57] fix: do not replace the entries of the list given to
 coadd

Paths and arrays in the caller's list were overwritten with SingleImage
instances, and a tuple of images was refused.
---
 properimage/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index df8700f..159ec17 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -482,9 +482,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
-    for i_img, animg in enumerate(si_list):
-        if not isinstance(animg, si):
-            si_list[i_img] = si(animg)
+    si_list = [
+        animg if isinstance(animg, si) else si(animg) for animg in si_list
+    ]
 
     if align:
         logger.info("Aligning images for coadd")
-- 
2.43.0


From 572d7be757ec99e131be51d42e74ba5e3eaecab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 10/57] fix: order the magnitudes of transparency like the rows
 of its system

The design matrix stacks one block per image, but the magnitudes were stored
source by source, which mixed up the zero points of three or more images.
---
 properimage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 3f042af..4521a9a 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -215,9 +215,9 @@ def transparency(images, master=None):
         )
 
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From 7d78cc542bac81f3010507d7242c7335ebb9777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 11/57] fix: renumber the master catalog in every transparency
 call

An image that had been matched before kept the source ids of the earlier master,
so the zero points depended on which calls came first.
---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 4521a9a..c2dc0c9 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,7 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From 06eb1d87b02e444b46f0f6b5fe2db13dc4f33cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 12/57] fix: turn magnitude zero points into the flux scales
 used as zp

subtract and coadd use zp as a linear flux scale (beta = zp_new / zp_ref, weight
zp / var**2), but assigned the zero points in magnitudes: a fainter image got a
larger scale.
---
 properimage/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index 159ec17..9f47c96 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -148,6 +148,8 @@ def subtract(
     mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
+    #  zero points are magnitudes, zp is a flux scale relative to the reference
+    zps = 10 ** (-0.4 * (zps - zps[0]))
     ref.zp = zps[0]
     new.zp = zps[1]
     n_zp = new.zp
@@ -503,6 +505,8 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
 
     logger.info("Computing transparency and zero points")
     zps, meanmags = u.transparency(img_list)
+    #  zero points are magnitudes, zp is a flux scale relative to the first
+    zps = 10 ** (-0.4 * (zps - zps[0]))
     for j, an_img in enumerate(img_list):
         an_img.zp = zps[j]
         an_img._setup_kl_a_fields(inf_loss)
-- 
2.43.0


From 7145d85ba3a248f13a592d462747359557328d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 13/57] fix: centre the gaussian PSF models inside non square
 images

x runs along columns: with the axes swapped the PSF of an elongated image was
rendered off centre or entirely outside of the frame.
---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 9f47c96..415d4bb 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -166,10 +166,10 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 10dd89f11c1fef2087c8b29a452f1c95f989e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 14/57] fix: normalise the gaussian PSF models to unit sum in
 subtract

They were rendered with unit amplitude, which multiplied the relative flux scale
by the ratio of the PSF areas whenever the seeing differs.
---
 properimage/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index 415d4bb..e300e1d 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -175,6 +175,8 @@ def subtract(
 
         p_n = p_n.render(np.zeros(new.data.data.shape))
         p_r = p_r.render(np.zeros(ref.data.data.shape))
+        p_n = p_n / np.sum(p_n)
+        p_r = p_r / np.sum(p_r)
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From 60c736a7b800e3fa49ae44dc3f5286de56f4f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 15/57] fix: keep pixels to optimise on in images smaller than
 twice OPT_BORDER

The cost of the shift fits was evaluated on an empty region for images of up to
200 pixels, so that neither the flux scale nor the shift was ever fitted.
---
 properimage/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index e300e1d..e7bbd6d 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -209,6 +209,8 @@ def subtract(
     gamma = new_back - ref_back
     b = n_zp / r_zp
     norm = np.sqrt(norm_a + norm_b * b**2)
+    #  leave at least half of each axis of small images inside the borders
+    bx, by = [min(OPT_BORDER, side // 4) for side in mix_mask.shape]
     if beta:
         if shift:  # beta==True & shift==True
 
@@ -224,7 +226,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[bx:-bx, by:-by]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
 
                 return chi
@@ -334,7 +336,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[bx:-bx, by:-by]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
                 return chi
 
-- 
2.43.0


From 33e95476e8130f756e0c1e94342b6da312b31b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 16/57] fix: update_sources on an instance whose sources were
 not extracted yet

With an explicit stamp_shape the catalog is lazy, and coadd with align=True or
update_sources itself raised AttributeError.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 06f443d..e07066c 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -727,7 +727,7 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        self.__dict__.pop("_best_sources", None)
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From d22a8d440ce393b1672db9c1089915fa18751276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 17/57] fix: really disable the strict star pick for few
 candidates

The flag that is read is _strict_star_pick; a new unused attribute was set.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index e07066c..078c1bf 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -783,7 +783,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From 5e442a17905a83db5ad57b72f5cf02bd25d0a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 18/57] fix: drop results computed for another inf_loss or zp

The normalisation image never followed inf_loss, the S component could return
the one of an earlier inf_loss, an assigned inf_loss was ignored once a PSF
basis existed, and S kept the zp it was first computed with.
---
 properimage/single_image.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 078c1bf..dfac74c 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1235,8 +1235,32 @@ class SingleImage(object):
 
     @zp.setter
     def zp(self, val):
+        if val != self.zp:
+            self._forget("_s_hat_comp", "_s_component")
         self._zp = val
 
+    @property
+    def inf_loss(self):
+        """Get information loss value."""
+        return self._inf_loss
+
+    @inf_loss.setter
+    def inf_loss(self, val):
+        if val != getattr(self, "_inf_loss", val):
+            self._forget(
+                "_kl_basis",
+                "_a_fields",
+                "_normal_image",
+                "_s_hat_comp",
+                "_s_component",
+            )
+        self._inf_loss = val
+
+    def _forget(self, *names):
+        """Drop cached results that are not valid any more."""
+        for name in names:
+            self.__dict__.pop(name, None)
+
     @property
     def var(self):
         """Get globalrms variance value."""
-- 
2.43.0


From fe3aa6f5b0b79575024e7dd4aa261ed97fa725cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 19/57] fix: give every instance a stamp file of its own across
 processes

Names were made of id(self) in a directory created at import, so that forked
workers overwrote the stamps of each other.
---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index dfac74c..90d8b81 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -19,6 +19,7 @@ import logging
 import os
 import pathlib
 import tempfile
+import uuid
 
 from astropy.convolution import Box2DKernel
 from astropy.convolution import convolve_fft
@@ -141,7 +142,7 @@ class SingleImage(object):
         self.stamp_shape = stamp_shape
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
-        self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        self.dbname = str(TEMP_PATH / f"{uuid.uuid4().hex}_SingleImage")
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From 0e466b807dd14f0cbc8be1395667978c798939d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 20/57] fix: get_psf_xy with even or non square stamps

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 90d8b81..e16caf7 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1432,12 +1432,12 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            xsize, ysize = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - xsize // 2
+            xmax = xmin + xsize
+            ymin = yp - ysize // 2
+            ymax = ymin + ysize
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
                     apsf
-- 
2.43.0


From a841464b7eca60e672edb96cdc87f97c453290b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 21/57] fix: close the FITS file opened to look for a mask

---
 properimage/single_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index e16caf7..2b54581 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -418,6 +418,7 @@ class SingleImage(object):
                                 f"{masked.mask.sum()} pixels masked"
                             )
                             self.__data = masked
+                    ff.close()
                 except IOError as e:
                     logger.warning(
                         f"Could not open FITS file ({e}), masking invalid"
-- 
2.43.0


From 4710c7626420f4c41e2606222103ee3103c444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 22/57] fix: accept a MaskedArray as input image

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2b54581..ebc5fb8 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -346,7 +346,7 @@ class SingleImage(object):
                 logger.debug("Source is PrimaryHDU, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
 
-            elif self.attached_to == "ndarray":
+            elif isinstance(self.__img, np.ndarray):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-- 
2.43.0


From d19d1a011fa6360adf6a96fb2ac06084b61c3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 23/57] fix: keep the reference mask when subtract aligns the
 new image

---
 properimage/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index e7bbd6d..33de9e9 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,7 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
-- 
2.43.0


From c6cc0c3bf60b7679e503664210de27cd2d6d23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 24/57] fix: honour iso_kw and the shape of the basis in the
 PSF basis plots

---
 properimage/plot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..986453d 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,15 +223,14 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
         cmap_kw = cmap_kw or {}
         cmap_kw.setdefault("shrink", 0.85)
@@ -247,7 +246,7 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
@@ -287,7 +286,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = cmap_kw or {}
-- 
2.43.0


From 2c19fed06f2da7bb9830f1af2c27a0ec4b186b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 25/57] fix: value of the airy pattern at its centre

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..9c72ed8 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -89,6 +89,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0.0:
+        return amplitude
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From 3f2f0d8b6b1d48cee81dc3517816269f33373a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 26/57] fix: fill the last row and column of the sersic galaxy

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 9c72ed8..9392c4f 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -160,8 +160,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From 1322c4a0b21f92f6d389447d47c0e37e08a6114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 27/57] fix: give every delta source its own weight

---
 properimage/simtools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 9392c4f..aafb4c7 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -212,13 +212,11 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From 0e35390c2bc45c3f3a06ccbb5ad5c399f10e1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 28/57] fix: simulate a centred gaussian PSF of the requested
 FWHM

---
 properimage/simtools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index aafb4c7..9246812 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -45,14 +45,15 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
         Y_FWHM = X_FWHM
 
     a = np.zeros((int(N), int(N)))
-    mu = (N - 1) / 2.0
-    sigma_x = X_FWHM / 2.335
-    sigma_y = Y_FWHM / 2.335
+    mu = (int(N) - 1) / 2.0
+    sigma_x = X_FWHM / 2.355
+    sigma_y = Y_FWHM / 2.355
     sigma = max(sigma_x, sigma_y)
     tail_len = min(int(5 * sigma), N / 2)
-    mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    lower = max(int(mu - tail_len), 0)
+    upper = min(int(np.ceil(mu + tail_len)) + 1, int(N))
+    for i in range(lower, upper):
+        for j in range(lower, upper):
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
-- 
2.43.0


From 46e2faa0216359015e26a81566f53992f4e06ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 29/57] fix: width and support of astropy_Psf

---
 properimage/simtools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 9246812..3c0ebd2 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -71,13 +71,14 @@ def astropy_Psf(N, FWHM):
     """
     psf = np.zeros((N, N))
     mu = (N - 1) / 2.0
-    sigma = FWHM / 2.335
+    sigma = FWHM / 2.355
     model = models.Gaussian2D(
         amplitude=1.0, x_mean=mu, y_mean=mu, x_stddev=sigma, y_stddev=sigma
     )
     tail_len = int(7 * sigma)
-    mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    lower = max(int(mu - tail_len), 0)
+    upper = min(int(np.ceil(mu + tail_len)) + 1, N)
+    i = range(lower, upper)
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From 442c28822a44037b7339a2d46601ab477abba446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 30/57] fix: store masked arrays without mask and masked
 complex images

---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index c2dc0c9..1c83a3f 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,11 +47,11 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 751b5b10c6a0644d70ad507359e6f65f9d915845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 31/57] fix: remove the stamp files of the instances subtract
 and coadd create

---
 properimage/operations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 33de9e9..47f8974 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -109,6 +109,7 @@ def subtract(
     else:
         from .single_image import SingleImage as SI
 
+    owned = []  # instances created here, not by the caller
     if not isinstance(ref, SI):
         try:
             ref = SI(ref, smooth_psf=smooth_psf)
@@ -117,6 +118,7 @@ def subtract(
                 ref = SI(ref.data, smooth_psf=smooth_psf)
             except Exception:
                 raise
+        owned.append(ref)
 
     if not isinstance(new, SI):
         try:
@@ -126,12 +128,12 @@ def subtract(
                 new = SI(new.data, smooth_psf=smooth_psf)
             except Exception:
                 raise
+        owned.append(new)
 
     if align:
         registrd, registrd_mask = aa.register(
             new.data, ref.data, propagate_mask=True
         )
-        new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
@@ -139,6 +141,7 @@ def subtract(
             borders=False,
             smooth_psf=smooth_psf,
         )
+        owned.append(new)
         # new.data = registered
         # new.data.mask = registered.mask
 
@@ -431,6 +434,9 @@ def subtract(
         "Subtraction performed in {} seconds\n\n".format(time.time() - t0)
     )
 
+    for img in owned:
+        img._clean()
+
     return D, P, S_corr.real, mix_mask
 
 
@@ -490,6 +496,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
+    given_imgs = si_list  # anything else is created here
     si_list = [
         animg if isinstance(animg, si) else si(animg) for animg in si_list
     ]
@@ -585,6 +592,10 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         P_r = P_r / np.sum(P_r)
         R = _ifftwn(S_hat / P_r_hat)
 
+    for an_img in img_list:
+        if not any(an_img is given for given in given_imgs):
+            an_img._clean()
+
     logger.info("Coadd operation completed successfully")
     return R, P_r, mix_mask
 
-- 
2.43.0


From e654877361c2c0d077c5fc35915f74b8bd435ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 32/57] fix: accept images that are not stored in C order

---
 properimage/single_image.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index ebc5fb8..1317bee 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -199,19 +199,25 @@ class SingleImage(object):
             logger.debug(
                 f"Converting numpy array to MaskedArray, shape: {img.shape}"
             )
-            self.__data = ma.MaskedArray(img, mask=False).astype("<f4")
+            self.__data = ma.MaskedArray(img, mask=False).astype(
+                "<f4", order="C"
+            )
         elif isinstance(img, fits.HDUList):
             if img[0].is_image:
                 logger.debug(
                     f"Extracting data from HDUList, shape: {img[0].data.shape}"
                 )
-                self.__data = ma.asarray(img[0].data).astype("<f4")
+                self.__data = ma.asarray(img[0].data).astype(
+                    "<f4", order="C"
+                )
         elif isinstance(img, fits.PrimaryHDU):
             if img.is_image:
                 logger.debug(
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
-                self.__data = ma.asarray(img.data).astype("<f4")
+                self.__data = ma.asarray(img.data).astype(
+                    "<f4", order="C"
+                )
         self.__full_shape = self.__data.shape
         self.__window = (slice(None), slice(None))
         if self.borders:
-- 
2.43.0


From 9bcdb13ba1f96873fb586b655d8d90f689afc38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 33/57] fix: do not write the plot defaults into the caller's
 cmap_kw

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 986453d..2638a04 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -232,7 +232,7 @@ class Plot:
 
         iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.85)
 
         title_tpl = r"$\sum p_{j:d} = {sum:4.3e}$"
@@ -289,7 +289,7 @@ class Plot:
                 f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.75)
         cmap_kw.setdefault("aspect", 30)
 
-- 
2.43.0


From acbbd79aa9139421247c959a16c569206da8ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 34/57] fix: do not write the star stamps levelling into the
 interpolated image

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 1317bee..7ffa912 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -828,7 +828,10 @@ class SingleImage(object):
 
                 new_shape = sub_array_data.shape
                 # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                #  extract_array gives a view, do not write in the image
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From 7bc6c01ebdc11f37f1c1624449e4daa9df1299db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 35/57] fix: normalise the KL PSF models to unit sum in
 subtract

---
 properimage/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 47f8974..4e16d3a 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -186,8 +186,9 @@ def subtract(
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
     else:
-        p_r = psf_ref[0]
-        p_n = psf_new[0]
+        #  sign and norm of a KL component are arbitrary
+        p_r = psf_ref[0] / np.sum(psf_ref[0])
+        p_n = psf_new[0] / np.sum(psf_new[0])
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From 6344f172f5e01a798fea6d4edd90ae93ca575237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 36/57] fix: keep the PSF Fourier modes that are purely
 imaginary in subtract

---
 properimage/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 4e16d3a..8ee551e 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -198,8 +198,8 @@ def subtract(
     psf_ref_hat = _fftwn(p_r, s=ref.data.shape, norm="ortho")
     psf_new_hat = _fftwn(p_n, s=new.data.shape, norm="ortho")
 
-    psf_ref_hat[psf_ref_hat.real == 0] = eps
-    psf_new_hat[psf_new_hat.real == 0] = eps
+    psf_ref_hat[psf_ref_hat == 0] = eps
+    psf_new_hat[psf_new_hat == 0] = eps
 
     psf_ref_hat_conj = psf_ref_hat.conj()
     psf_new_hat_conj = psf_new_hat.conj()
-- 
2.43.0


From edcc3b1b9b66a67146eb0d0a7a9300b7b879593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 37/57] fix: read the significance at the pixel of the
 detection

---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 1c83a3f..e1146f1 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -357,7 +357,8 @@ def find_S_local_maxima(S_image, threshold=2.5, neighborhood_size=5):
     )
     cat = []
     for x, y in xy:
-        cat.append((y, x, (S_image[int(x), int(y)] - mean) / std))
+        peak = S_image[int(round(x)), int(round(y))]
+        cat.append((y, x, (peak - mean) / std))
 
     return cat
 
-- 
2.43.0


From 0995ae2d4160af342b28d7924d5125ee88aa3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 38/57] fix: raise the error of an image subtract cannot
 measure

---
 properimage/operations.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 8ee551e..c0faeb1 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -113,21 +113,15 @@ def subtract(
     if not isinstance(ref, SI):
         try:
             ref = SI(ref, smooth_psf=smooth_psf)
-        except Exception:
-            try:
-                ref = SI(ref.data, smooth_psf=smooth_psf)
-            except Exception:
-                raise
+        except AttributeError:  # not a kind of image SI can read itself
+            ref = SI(ref.data, smooth_psf=smooth_psf)
         owned.append(ref)
 
     if not isinstance(new, SI):
         try:
             new = SI(new, smooth_psf=smooth_psf)
-        except Exception:
-            try:
-                new = SI(new.data, smooth_psf=smooth_psf)
-            except Exception:
-                raise
+        except AttributeError:  # not a kind of image SI can read itself
+            new = SI(new.data, smooth_psf=smooth_psf)
         owned.append(new)
 
     if align:
-- 
2.43.0


From fb029e912a5dfc1eabe80a4646f7036dc00c2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 39/57] fix: refuse to look for stars in a completely masked
 image

---
 properimage/single_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7ffa912..454821e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -575,6 +575,8 @@ class SingleImage(object):
             n_sources: the total number of sources extracted
         """
         if not hasattr(self, "_best_sources"):
+            if np.all(self.mask):
+                raise ValueError("Every pixel of the image is masked")
             logger.debug(
                 f"Detecting sources with background RMS: "
                 f"{self.__bkg.globalrms:.4f}"
-- 
2.43.0


From 163a1dd1668328df474bb610077bf8e5ebe3ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 40/57] fix: use the standard deviation asked for in gaussian
 sky noise

---
 properimage/simtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 3c0ebd2..ed004cc 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -268,7 +268,8 @@ def image(
 
     elif bkg_pdf == "gaussian":
         mean = 0
-        std = b / SN
+        if std is None:
+            std = b / SN
         C = random.normal(mean, std, (N, N))
     return C + IM + bias
 
-- 
2.43.0


From 0293fdd348bd49f20d86481f8d7be881671cc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 41/57] fix: average the fitted gaussians in one description

---
 properimage/single_image.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 454821e..40d1402 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1514,6 +1514,16 @@ class SingleImageGaussPSF(SingleImage):
             p_th.append(gaussian.theta.value)
             p_am.append(gaussian.amplitude.value)
 
+        #  a gaussian has two equal descriptions, a quarter of a turn apart:
+        #  describe every star along the common direction before averaging
+        p_xw, p_yw, p_th = np.abs(p_xw), np.abs(p_yw), np.asarray(p_th)
+        common = np.sum((p_xw**2 - p_yw**2) * np.exp(2j * p_th))
+        common = np.angle(common) / 2.0
+        turn = (p_th - common + np.pi / 4.0) % np.pi
+        swap = turn >= np.pi / 2.0
+        p_xw, p_yw = np.where(swap, [p_yw, p_xw], [p_xw, p_yw])
+        p_th = common + turn % (np.pi / 2.0) - np.pi / 4.0
+
         mean_xw, med_xw, std_xw = sigma_clipped_stats(p_xw)
         mean_yw, med_yw, std_yw = sigma_clipped_stats(p_yw)
         mean_th, med_th, std_th = sigma_clipped_stats(p_th)
-- 
2.43.0


From 9ea5842feb0f71febd1dea8910b1272db6f41ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 42/57] fix: choose among too many stars reproducibly

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 40d1402..5ddc6c5 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -725,7 +725,8 @@ class SingleImage(object):
                     f"Too many sources ({len(best_srcs)}), randomly selecting "
                     f"{MAX_SRCS_LIMIT}"
                 )
-                jj = np.random.choice(
+                # a generator of its own: same image, same choice
+                jj = np.random.default_rng(0).choice(
                     len(best_srcs), MAX_SRCS_LIMIT, replace=False
                 )
                 best_srcs = best_srcs[jj]
-- 
2.43.0


From d61723257dd01c8984602ab9caa173b69d028288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 43/57] fix: keep the components of crowded fields consistent
 with their coefficients

---
 properimage/single_image.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 5ddc6c5..ace2c2f 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1067,9 +1067,6 @@ class SingleImage(object):
                     for j in range(self.n_sources):
                         pj = self.db.load(j)[0]
                         base += xs[j, i] * pj
-                    base = base / np.sum(base)
-                    base = base - np.abs(np.min(base))
-                    base = base / np.sum(base)
                     psf_basis.append(base)
                     del base
             psf_basis.reverse()
-- 
2.43.0


From 4c865cb1bcfd7cb421c47db73ca82331d2f0aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 44/57] fix: smooth the PSF components without rescaling each
 of them

---
 properimage/single_image.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index ace2c2f..3932e06 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1078,7 +1078,6 @@ class SingleImage(object):
                     new_psfs.append(
                         filters.gaussian(a_psf, sigma=1.5, preserve_range=True)
                     )
-                    new_psfs[-1] = new_psfs[-1] / np.sum(new_psfs[-1])
                 psf_basis = new_psfs
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
-- 
2.43.0


From f2a859a2ea0ac8ca861af959c0c891230eac7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 45/57] fix: draw independent sky noise in the quadrants of a
 simulated mosaic

---
 properimage/simtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index ed004cc..8e27bc8 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -350,7 +350,7 @@ def sim_varpsf(nstars, SN=30.0, thetas=[0, 45, 105, 150], N=512, seed=None):
             theta=theta,
             SN=SN,
             bkg_pdf="gaussian",
-            seed=seed,
+            seed=None if seed is None else int(random.integers(2**32)),
             bias=bias,
         )
         frames.append(im + bias)
-- 
2.43.0


From 7f78b777a5fd443155bc016e5e31685a6583147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 46/57] fix: the first star of the master catalogue is a match
 too

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index e1146f1..fc325ad 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs != -13133  # zero is the id of the first star
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From 0d0a92e80ba58ae15c791053af0eaf174e5dcf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 47/57] fix: PSF at positions closer to the edge than half a
 stamp

get_psf_xy cut the correction of the field effects with a slice, which is
empty or too short when part of the stamp is outside of the image, so it
raised a shape error for every source next to the edges.  The coefficients
and the correction are now taken at the nearest pixel of the image.
---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 3932e06..8c47845 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1447,12 +1447,12 @@ class SingleImage(object):
             xmax = xmin + xsize
             ymin = yp - ysize // 2
             ymax = ymin + ysize
+            #  next to the edges part of the stamp is outside of the image
+            nx, ny = self.data.shape
+            xs, ys = np.mgrid[xmin:xmax, ymin:ymax]
+            xs, ys = np.clip(xs, 0, nx - 1), np.clip(ys, 0, ny - 1)
             for apsf, afield in zip(psf_basis, a_fields):
-                psf_at_xy += (
-                    apsf
-                    * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
-                )
+                psf_at_xy += apsf * afield(xs, ys) / self.normal_image[xs, ys]
 
             return psf_at_xy / np.sum(psf_at_xy)
         else:
-- 
2.43.0


From 2d4ddaaea12d12895bdaec6431622ee506a76605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 48/57] fix: give the pixel stack of sep back after detecting
 sources

A crowded exposure raised it for the rest of the process, so that measuring
the same exposure again, or another one, gave other sources.
---
 properimage/single_image.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 8c47845..7871385 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -574,6 +574,15 @@ class SingleImage(object):
             positions: an array, with the position of each source stamp
             n_sources: the total number of sources extracted
         """
+        #  the pixel stack of sep belongs to the process, give it back
+        pixstack = sep.get_extract_pixstack()
+        try:
+            return self._find_best_sources()
+        finally:
+            sep.set_extract_pixstack(pixstack)
+
+    def _find_best_sources(self):
+        """Detect the sources and select the best of them."""
         if not hasattr(self, "_best_sources"):
             if np.all(self.mask):
                 raise ValueError("Every pixel of the image is masked")
-- 
2.43.0


From 9205d9d4ebee6df78edac6d173bc7bcd3abf2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 49/57] fix: stamps of another shape asked for after measuring
 the stars

get_variable_psf(shape=...) cut the stamps again, and again at every later
use, while the PSF stayed the one of the first stamps: shape and positions
did not belong to it any more.  As documented, the shape asked for now counts
only as long as the stars are not measured; the fitted PSF honours it too.
---
 properimage/single_image.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7871385..60ae4c0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -964,6 +964,7 @@ class SingleImage(object):
                 f"(added {STAMP_PADSIZE}px padding)"
             )
             self._stamps_pos = np.array(pos)
+            self._shape = None  # done, do not cut the stamps again
             self._n_sources = len(pos)
             logger.info(f"Total sources with valid stamps: {self._n_sources}")
         return self._stamps_pos
@@ -1142,6 +1143,11 @@ class SingleImage(object):
                 a_fields.append(fit)
             self._a_fields = a_fields
 
+    def _ask_stamp_shape(self, shape):
+        """Set the shape of the stamps, unless the stars are measured."""
+        if shape is not None and not hasattr(self, "_stamps_pos"):
+            self._shape = shape
+
     def get_variable_psf(self, inf_loss=None, shape=None):
         """
         Get the variable PSF KL decomposition.
@@ -1181,8 +1187,7 @@ class SingleImage(object):
         arguments to return numpy array fields (for example a_fields[0](x, y)).
         These can be generated using `get_afield_domain`.
         """
-        if shape is not None:
-            self._shape = shape
+        self._ask_stamp_shape(shape)
 
         updating = (inf_loss is not None) and (self.inf_loss != inf_loss)
 
@@ -1504,6 +1509,8 @@ class SingleImageGaussPSF(SingleImage):
         An astropy model Gaussian2D instance, with the median parameters
         for the fit of every star.
         """
+        self._ask_stamp_shape(shape)
+
         p_xw = []
         p_yw = []
         p_th = []
-- 
2.43.0


From 56912c8c177a4ef3f4a49101bfa0c3a5fb8ebaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 50/57] fix: unit sum for the fitted Gaussian PSF

It was rendered with amplitude one, so that the matched filter image and the
coadd of SingleImageGaussPSF exposures were multiplied by its area, and
exposures with bad seeing weighed the most.
---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 60ae4c0..feb0a16 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1551,4 +1551,5 @@ class SingleImageGaussPSF(SingleImage):
             amplitude=1.0,
         )
 
-        return [[None], [mean_model.render(), mean_model]]
+        render = mean_model.render()
+        return [[None], [render / np.sum(render), mean_model]]
-- 
2.43.0


From b063118744d98c6216e425e3e3c13484167f6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 51/57] fix: coadd fitted exposures with the power of their
 fitted PSF

psf_hat_sqnorm always took the Karhunen-Loeve components, also for
SingleImageGaussPSF, whose matched filter image is made with the fitted PSF.
---
 properimage/single_image.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index feb0a16..c9665a8 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1423,9 +1423,8 @@ class SingleImage(object):
 
     def psf_hat_sqnorm(self):
         """Get the squared norm of the PSF fourier transform."""
-        psf_basis = self.kl_basis
-        a_fields = self.kl_afields
-        if a_fields is None:
+        a_fields, psf_basis = self.get_variable_psf()
+        if a_fields[0] is None:
             p_hat = _fftwn(psf_basis[0], s=self.data.shape, norm="ortho")
             p_hat_sqnorm = p_hat * p_hat.conj()
         else:
-- 
2.43.0


From f6b4b07a86204ebd13c4846448019f7cdb2eba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 52/57] fix: plot the fitted PSF of SingleImageGaussPSF

autopsf took the model that follows the rendered PSF for a second component
and ended with a TypeError.
---
 properimage/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 2638a04..7f9b55a 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -193,10 +193,12 @@ class Plot:
         **kwargs,
     ):
         """Plot autopsf basis components."""
-        _, psf_basis = self.si.get_variable_psf(inf_loss=inf_loss, shape=shape)
+        a_fields, psf_basis = self.si.get_variable_psf(
+            inf_loss=inf_loss, shape=shape
+        )
 
-        # here we plot
-        N = len(psf_basis)
+        # here we plot (a fitted PSF is followed by its model)
+        N = len(a_fields)
 
         if axs is None:
             p = primes(N)
-- 
2.43.0


From 7e7d08ada1d402929118b0af8231838f3bf85dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 53/57] fix: PSF at a position of a fitted exposure is the
 fitted PSF

get_psf_xy took the Karhunen-Loeve basis even where get_variable_psf is
replaced by the gaussian fit.
---
 properimage/single_image.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index c9665a8..892cb77 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1449,8 +1449,7 @@ class SingleImage(object):
 
     def get_psf_xy(self, x, y):
         """Get the variable PSF coefficient domain coordinate grid."""
-        psf_basis = self.kl_basis
-        a_fields = self.kl_afields
+        a_fields, psf_basis = self.get_variable_psf()
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-- 
2.43.0


From 1403948d6b2578d134f648e7667dbbab66c9ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 54/57] fix: remove the stamp files of internal images when an
 operation fails

subtract and coadd cleaned the instances they create only at the end of
the function, an error on the way left their files behind.
---
 properimage/operations.py | 54 +++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index c0faeb1..a53f458 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -102,6 +102,38 @@ def subtract(
     mix_mask : np.ndarray of bool
         Mask of bad pixels for subtracion image, with True marking bad pixels
     """
+    owned = []  # instances created here, not by the caller
+    try:
+        return _subtract(
+            owned,
+            ref,
+            new,
+            align=align,
+            inf_loss=inf_loss,
+            smooth_psf=smooth_psf,
+            beta=beta,
+            shift=shift,
+            iterative=iterative,
+            fitted_psf=fitted_psf,
+        )
+    finally:
+        for img in owned:
+            img._clean()
+
+
+def _subtract(
+    owned,
+    ref,
+    new,
+    align,
+    inf_loss,
+    smooth_psf,
+    beta,
+    shift,
+    iterative,
+    fitted_psf,
+):
+    """Subtract a pair of images, adding to owned the instances created."""
     if fitted_psf:
         from .single_image import SingleImageGaussPSF as SI
 
@@ -109,7 +141,6 @@ def subtract(
     else:
         from .single_image import SingleImage as SI
 
-    owned = []  # instances created here, not by the caller
     if not isinstance(ref, SI):
         try:
             ref = SI(ref, smooth_psf=smooth_psf)
@@ -429,9 +460,6 @@ def subtract(
         "Subtraction performed in {} seconds\n\n".format(time.time() - t0)
     )
 
-    for img in owned:
-        img._clean()
-
     return D, P, S_corr.real, mix_mask
 
 
@@ -486,6 +514,18 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     mix_mask : np.ndarray of bool
         Mask of bad pixels for subtracion image, with True marking bad pixels
     """
+    owned = []  # instances created here, not by the caller
+    try:
+        return _coadd(
+            owned, si_list, align=align, inf_loss=inf_loss, n_procs=n_procs
+        )
+    finally:
+        for an_img in owned:
+            an_img._clean()
+
+
+def _coadd(owned, si_list, align, inf_loss, n_procs):
+    """Coadd a list of images, adding to owned the instances created."""
     logger.info(f"Starting coadd operation with {len(si_list)} images")
     logger.info(
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
@@ -495,10 +535,12 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     si_list = [
         animg if isinstance(animg, si) else si(animg) for animg in si_list
     ]
+    owned += [x for x in si_list if not any(x is y for y in given_imgs)]
 
     if align:
         logger.info("Aligning images for coadd")
         img_list = u._align_for_coadd(si_list)
+        owned += [x for x in img_list if not any(x is y for y in si_list)]
         logger.info("Updating sources after alignment")
         for an_img in img_list:
             an_img.update_sources()
@@ -587,10 +629,6 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         P_r = P_r / np.sum(P_r)
         R = _ifftwn(S_hat / P_r_hat)
 
-    for an_img in img_list:
-        if not any(an_img is given for given in given_imgs):
-            an_img._clean()
-
     logger.info("Coadd operation completed successfully")
     return R, P_r, mix_mask
 
-- 
2.43.0


From 932f3608feb01c4e1151f7440b6702bbfbb8b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 55/57] fix: search flux scales of exposures that differ by
 more than ten times

---
 properimage/operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index a53f458..a5f67e2 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -239,6 +239,8 @@ def _subtract(
     ref_back = sep.Background(ref.interped).back()
     gamma = new_back - ref_back
     b = n_zp / r_zp
+    #  the search starts at the flux ratio of the common stars
+    b_min, b_max = min(0.1, b / 2.0), max(10.0, b * 2.0)
     norm = np.sqrt(norm_a + norm_b * b**2)
     #  leave at least half of each axis of small images inside the borders
     bx, by = [min(OPT_BORDER, side // 4) for side in mix_mask.shape]
@@ -264,7 +266,7 @@ def _subtract(
 
             ti = time.time()
             vec0 = [b, 0.0, 0.0]
-            bounds = ([0.1, -0.9, -0.9], [10.0, 0.9, 0.9])
+            bounds = ([b_min, -0.9, -0.9], [b_max, 0.9, 0.9])
             solv_beta = optimize.least_squares(
                 cost,
                 vec0,
@@ -307,7 +309,7 @@ def _subtract(
             solv_beta = optimize.minimize_scalar(
                 F,
                 method="bounded",
-                bounds=[0.1, 10.0],
+                bounds=[b_min, b_max],
                 options={"maxiter": 1000},
             )
 
@@ -336,7 +338,7 @@ def _subtract(
 
             ti = time.time()
             solv_beta = optimize.least_squares(
-                F, b, ftol=1e-8, bounds=[0.1, 10.0], jac="2-point"
+                F, b, ftol=1e-8, bounds=[b_min, b_max], jac="2-point"
             )
 
             tf = time.time()
-- 
2.43.0


From 173dc6e49015eabffcc187ae8617bd626cdce4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 56/57] fix: plot the real part of single precision complex
 images

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 7f9b55a..c19d17f 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -128,7 +128,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
-- 
2.43.0


From f31733fd0f91dae99065e048b1f252564c398124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 57/57] fix: return the axes of the plotted images

---
 properimage/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c19d17f..b07789e 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -103,13 +103,14 @@ def plot_S(S, path=None, nbook=False):
     )
     plt.tight_layout()
     plt.colorbar()
+    ax = plt.gca()
     if path is not None:
         plt.savefig(path)
     else:
         plt.show()
     if not nbook:
         plt.close()
-    return plt.gca()
+    return ax
 
 
 def plot_R(R, path=None, nbook=False):
@@ -135,13 +136,14 @@ def plot_R(R, path=None, nbook=False):
     plt.imshow(np.log10(R), interpolation="none", cmap="viridis")
     plt.tight_layout()
     plt.colorbar()
+    ax = plt.gca()
     if path is not None:
         plt.savefig(path)
     else:
         plt.show()
     if not nbook:
         plt.close()
-    return
+    return ax
 
 
 # =============================================================================
-- 
2.43.0

