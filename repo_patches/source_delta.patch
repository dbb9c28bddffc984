From d9345de4a5fa82fb9235d8d42faf05f3a1bcc097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 01/49] fix: keep dsize and resampling params when swapping a
 warp with an overview

DelayedOverview._opt_warp_after_overview rebuilt the warp with an auto dsize
and default resampling parameters, so optimizing could change the output size
and silently drop interpolation, antialias and border_value.
---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..2f292d0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3344,8 +3344,12 @@ class DelayedOverview(DelayedImage):
         C = A @ B @ A.inv()
         new_outer = C
         new_inner_overview = outer_overview
+        warp_meta = ub.dict_isect(self.meta, {'dsize'})
+        warp_meta.update(
+            ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        )
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        new = new.warp(new_outer, **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From d407856479408ed115f935ef5b07ff78e3ca3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/49] fix: preserve dsize when swapping a crop with an
 overview

When the crop is not aligned to the overview grid a residual warp is added;
its auto dsize could be one pixel larger than the size of the original node.
---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2f292d0..adf0e40 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3281,7 +3281,7 @@ class DelayedOverview(DelayedImage):
 
         if not np.all(np.isclose(np.eye(3), new_outer_warp)):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.meta['dsize'])
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From 77352c82322f894f59d35c46ea2a28dd5e0d0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 03/49] fix: optimizing an upsampling warp over an empty crop
 of an overview

DelayedCrop._opt_warp_after_crop declines to rewrite empty crops and returns
itself, which _opt_absorb_overview mistook for a warp (KeyError 'transform').
---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index adf0e40..ca135b3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2286,6 +2286,10 @@ class DelayedWarp(DelayedImage):
             # Might be better to fuse the crops.
             return self
 
+        if any(0 in (node.meta.get('dsize') or ()) for node in chain):
+            # An empty crop cannot be swapped with a warp.
+            return self
+
         if DEBUG:
             print('---------')
             print('ORIG:')
-- 
2.43.0


From bc8ff8a39ab14c36bb752b46bbf53454dbce0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 04/49] fix: do not modify the input graph when absorbing an
 overview

copy.copy shares the meta dictionary, so _opt_absorb_overview overwrote the
dsize of the nodes of the original tree.
---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ca135b3..b2a93f2 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2322,6 +2322,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for node in chain:
+                node.meta = node.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From f02658c7e0de05061626fea70cf34515bfde75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 05/49] fix: keep the border value of a power of two warp onto
 a larger canvas

_opt_split_warp_overview replaced such a warp by a padded crop of the overview,
which filled the border with the default value instead of the requested one.
---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b2a93f2..d0158b8 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2498,7 +2498,10 @@ class DelayedWarp(DelayedImage):
         new_transform = residual_transform
         dsize = self.meta['dsize']
         overview = inner_data.get_overview(num_downs)
-        if new_transform.isclose_identity():
+        # If the canvas extends past the overview, then a warp is still needed to
+        # fill the border.
+        fits = all(d <= s for d, s in zip(dsize, overview.dsize))
+        if fits and new_transform.isclose_identity():
             new = overview
             if new.dsize != dsize:
                 # The warp must have had an implicit crop
-- 
2.43.0


From ff6ecf1f8654baa78aaa2446c3f0bafd46a5e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 06/49] fix: keep the sampling parameters of a power of two
 warp over a crop

Replacing the warp by an overview of an unaligned crop adds an alignment warp
with default parameters, e.g. linear sampling of data requested as nearest.
---
 delayed_image/delayed_nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index d0158b8..8da81d9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2501,7 +2501,13 @@ class DelayedWarp(DelayedImage):
         # If the canvas extends past the overview, then a warp is still needed to
         # fill the border.
         fits = all(d <= s for d, s in zip(dsize, overview.dsize))
-        if fits and new_transform.isclose_identity():
+        # If moving the overview inward needs a subpixel alignment (e.g. past a
+        # crop), then a warp is still needed to specify how to sample.
+        if (
+            fits
+            and new_transform.isclose_identity()
+            and not isinstance2(overview.optimize(), DelayedWarp)
+        ):
             new = overview
             if new.dsize != dsize:
                 # The warp must have had an implicit crop
-- 
2.43.0


From fe9dd4a208bf0e977ea6cbd74cadb17ea7d74987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 07/49] fix: keep the requested warp backend when a graph is
 optimized

'backend' was missing from the parameters passed on when a warp is rewritten.
---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8da81d9..cebbb8f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From bbf08f3e966a3d1ed6e67ed7b6bce515ae4e6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 08/49] fix: late fusing a channel spec with a string

---
 delayed_image/channel_spec.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index fa2b8dc..38ba8b8 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,9 +277,8 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = str
-        else:
-            other_spec = other.spec
+            other = ChannelSpec.coerce(other)
+        other_spec = other.spec
         if not self.spec:
             return other
         if not other_spec:
-- 
2.43.0


From ba1769ab7feda12e794445a426b186d82a9b22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 09/49] fix: simple channel encoding of specs with aliases or
 slices

---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 38ba8b8..cb57278 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1573,7 +1573,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts], axis=axis
+                    [components[k] for k in parts.parsed], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From babf1d5627d291105fbdb4e114648a9c586431fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 10/49] fix: component indices of a stream with channel slices

---
 delayed_image/channel_spec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index cb57278..d943539 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -880,8 +880,7 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part in self.parsed:
-            size = self._size_lut.get(part, 1)
+        for part, size in zip(self.parsed, self.sizes()):
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From bccaa779fadf78b75943d069b002374eb0680ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 11/49] fix: keep the channel selection of a padded crop

---
 delayed_image/delayed_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cebbb8f..858ab23 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -353,7 +353,7 @@ class ImageOpsMixin:
                 )
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
-            new = self._padded_crop(space_slice, pad=pad)
+            new = self._padded_crop(space_slice, pad=pad, chan_idxs=chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
@@ -418,7 +418,7 @@ class ImageOpsMixin:
         # return self.warp(adjusted_transform, dsize=dsize, interpolation='linear')
         return self.warp(transform, dsize=dsize, interpolation='linear')
 
-    def _padded_crop(self, space_slice, pad=0):
+    def _padded_crop(self, space_slice, pad=0, chan_idxs=None):
         """
         Does the type of padded crop we want, but inefficiently using a warp.
         Reimplementing would be good, but this is good enough for now.
@@ -442,7 +442,7 @@ class ImageOpsMixin:
             int(data_crop_box.width.ravel()[0] + offset_d1 + extra_d1),
             int(data_crop_box.height.ravel()[0] + offset_d0 + extra_d0),
         )
-        new = self.crop(_data_slice)
+        new = self.crop(_data_slice, chan_idxs)
         if any([offset_d0, extra_d0, offset_d1, extra_d1]):
             # Use a warp to accomplish padding.
             # Having an explicit padding node would be better.
-- 
2.43.0


From 5e72f59f15bfd50708516cfb5ccb67fd2b0d6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 12/49] fix: a lazy crop that selects channels is not a no-op

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 858ab23..03c529b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -336,6 +336,7 @@ class ImageOpsMixin:
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
                 and (not pad)
+                and chan_idxs is None
             )
             if is_noop:
                 return _as_image_like(self)
-- 
2.43.0


From 77da3480341033c3d71d8e8323f019c77d8ac646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 13/49] fix: nearest warp with an offset onto a canvas larger
 than the image raised IndexError

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 03c529b..3310a19 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1867,8 +1867,8 @@ class DelayedWarp(DelayedImage):
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
@@ -1876,8 +1876,8 @@ class DelayedWarp(DelayedImage):
                         (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
                     )
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = yi.clip(0, in_h - 1)[:, None]
+                        xx = xi.clip(0, in_w - 1)[None, :]
                         sampled = prewarp[yy, xx]
                         final[valid, :] = sampled[valid, :]
                 if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-- 
2.43.0


From dd46fe8f1978023e4546e6ba7310b8314a261f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 14/49] fix: nearest warp without offset stretched the image to
 an explicit canvas size

---
 delayed_image/delayed_nodes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3310a19..9f258cd 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1844,13 +1844,17 @@ class DelayedWarp(DelayedImage):
                 theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
             )
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
+            # A resize is only equivalent when the canvas is the scaled image
+            in_h, in_w = prewarp.shape[0:2]
+            is_full_canvas = dsize is None or (
+                abs(dsize[0] - sx * in_w) < 1 and abs(dsize[1] - sy * in_h) < 1
+            )
             if (
                 is_axis_aligned
-                and has_translation
+                and (has_translation or not is_full_canvas)
                 and not isinstance(border_value, str)
             ):
                 out_w, out_h = map(int, dsize)
-                in_h, in_w = prewarp.shape[0:2]
                 x_in = (np.arange(out_w) - tx) / sx
                 y_in = (np.arange(out_h) - ty) / sy
                 xi = np.floor(x_in).astype(int)
@@ -1942,6 +1946,7 @@ class DelayedWarp(DelayedImage):
                 and abs(float(ty)) < 1e-9
                 and sx > 0
                 and sy > 0
+                and is_full_canvas
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-- 
2.43.0


From 9397d9b87c64f552fd980ecb05e04dfd18e411fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 15/49] fix: whole pixel translations copy pixels exactly

---
 delayed_image/delayed_nodes.py | 87 ++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 9f258cd..1af4aca 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1679,6 +1679,72 @@ class DelayedAsXarray(DelayedImage):
         return new
 
 
+def _whole_pixel_translation(
+    transform: kwimage.Affine,
+) -> tuple[int, int] | None:
+    """
+    Check if a transform only moves an image by a whole number of pixels
+
+    Args:
+        transform (kwimage.Affine): transform to check
+
+    Returns:
+        Tuple[int, int] | None:
+            the x and y offset, or None if the transform does anything else
+    """
+    (a, b, tx), (c, d, ty) = np.asarray(transform)[0:2]
+    if a == 1 and b == 0 and c == 0 and d == 1:
+        if float(tx).is_integer() and float(ty).is_integer():
+            return int(tx), int(ty)
+    return None
+
+
+def _fits_dtype(value: Any, dtype: Any) -> bool:
+    """
+    Args:
+        value (Any): a number
+        dtype (Any): numpy dtype
+
+    Returns:
+        bool: True if arrays of this type can store the number as it is
+    """
+    if dtype.kind == 'f':
+        return True
+    if dtype.kind not in 'iu' or not float(value).is_integer():
+        return False
+    info = np.iinfo(dtype)
+    return bool(info.min <= value <= info.max)
+
+
+def _translate_pixels(
+    data: ArrayLike,
+    shift: tuple[int, int],
+    dsize: tuple[int, int],
+    fill: Any,
+) -> ArrayLike:
+    """
+    Copy an image onto a new canvas at a whole pixel offset
+
+    Args:
+        data (ndarray): image with 3 dimensions
+        shift (Tuple[int, int]): x and y offset of the image in the canvas
+        dsize (Tuple[int, int]): width and height of the canvas
+        fill (Any): value of the canvas where there is no image
+
+    Returns:
+        ndarray
+    """
+    in_h, in_w, num_chan = data.shape
+    tx, ty = shift
+    out_w, out_h = dsize
+    final = np.full((out_h, out_w, num_chan), fill, dtype=data.dtype)
+    x0, x1 = max(tx, 0), min(tx + in_w, out_w)
+    y0, y1 = max(ty, 0), min(ty + in_h, out_h)
+    if x0 < x1 and y0 < y1:
+        final[y0:y1, x0:x1] = data[y0 - ty : y1 - ty, x0 - tx : x1 - tx]
+    return final
+
+
 class DelayedWarp(DelayedImage):
     """
     Applies an affine transform to an image.
@@ -1827,6 +1893,27 @@ class DelayedWarp(DelayedImage):
 
         dsize = _ensure_valid_dsize(dsize)
 
+        # A translation by whole pixels needs no interpolation. Interpolating
+        # anyway would blend pixels on the far edge with a nan border.
+        if dsize is not None and not isinstance(border_value, str):
+            shift = _whole_pixel_translation(transform)
+            has_fill = len(border_value) == num_chan or (
+                len(set(border_value)) == 1
+            )
+            if (
+                shift is not None
+                and has_fill
+                and all(_fits_dtype(v, prewarp.dtype) for v in border_value)
+                and not isinstance(prewarp, np.ma.MaskedArray)
+            ):
+                prewarp = kwarray.atleast_nd(prewarp, 3, front=False)
+                fill = (
+                    border_value
+                    if len(border_value) == num_chan
+                    else border_value[0]
+                )
+                return _translate_pixels(prewarp, shift, dsize, fill)
+
         params = None
         if interpolation == 'nearest' or bool(antialias):
             params = transform.decompose()
-- 
2.43.0


From 82ccb22158eb557886ffe30db5881e1ede1d3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 16/49] fix: nearest warp with an offset ignored the border
 values of all but the first channel

---
 delayed_image/delayed_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1af4aca..0be8bb8 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1951,9 +1951,9 @@ class DelayedWarp(DelayedImage):
                 valid = valid_y[:, None] & valid_x[None, :]
 
                 fill = (
-                    border_value[0]
-                    if ub.iterable(border_value)
-                    else border_value
+                    border_value
+                    if prewarp.ndim == 3 and len(border_value) == num_chan
+                    else border_value[0]
                 )
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
-- 
2.43.0


From 152a95b65554f81ca71d788f7da53d24a4be4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 17/49] fix: a simulated overview has the size it declares

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0be8bb8..f8c6cab 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3262,7 +3262,7 @@ class DelayedOverview(DelayedImage):
         sub_final = np.asarray(sub_final)
         final = kwimage.imresize(
             sub_final,
-            scale=1 / 2**overview,
+            dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
-- 
2.43.0


From 4135c0365b2f16715560322b5141332114dabef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 18/49] fix: optimizing a warp over an overview of an image
 with unknown overviews raised TypeError

---
 delayed_image/delayed_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f8c6cab..ce0254b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3229,13 +3229,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
-            int
+            int | None
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_available = self.subdata.num_overviews
+        if num_available is None:
+            return None
+        num_remain = num_available - self.meta['overview']
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 5c35fe7a9674b7b122b5eab0539f3c8db7ddbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 19/49] fix: selecting a channel after a repeated name returned
 a different channel

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ce0254b..f60b445 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -929,12 +929,12 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             assert current_channels is not None
             # Compute subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             top_idx_mapping = []
             for code in request_codes:
                 try:
                     top_idx_mapping.append(top_codes.index(code))
-                except KeyError:
+                except ValueError:
                     top_idx_mapping.append(None)
 
         if missing_channel_policy == 'return_nan':
@@ -1417,12 +1417,12 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 return self
             # Computer subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             try:
                 top_idx_mapping = [
                     top_codes.index(code) for code in request_codes
                 ]
-            except KeyError:
+            except ValueError:
                 # If a requested channel doesn't exist we break this node up
                 # into a concat node so we can use its nan handing logic
                 # This should be easy to optimize if necessary.
-- 
2.43.0


From c556c5463df6a1fdbb648b6b1fd4889881d4f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 20/49] fix: selecting concatenated channels by index with
 negative indices or without channel names

---
 delayed_image/delayed_nodes.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f60b445..048c5df 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -917,9 +917,14 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
-            top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
+            num_channels = sum(comp.num_channels for comp in self.parts)
+            for idx in channels:
+                if not -num_channels <= idx < num_channels:
+                    raise IndexError(
+                        f'Requested channel index {idx} is out of bounds for '
+                        f'an image with {num_channels} channels'
+                    )
+            top_idx_mapping = [int(idx) % num_channels for idx in channels]
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
@@ -942,10 +947,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
-- 
2.43.0


From bac244e0b9b3117e06ab5331a0d9ff1573ae8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 21/49] fix: a lazy crop that only selects channels raised
 AssertionError

---
 delayed_image/delayed_nodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 048c5df..af494c0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -327,9 +327,8 @@ class ImageOpsMixin:
             # anything then skip it.
             assert self.dsize is not None
             assert all(d is not None for d in self.dsize)
-            assert space_slice is not None
             w, h = self.dsize
-            sl_y, sl_x = space_slice
+            sl_y, sl_x = space_slice or (slice(None), slice(None))
             is_noop = (
                 (sl_y.start is None or sl_y.start == 0)
                 and (sl_y.stop is None or sl_y.stop == h)
-- 
2.43.0


From 5a1356dabf6e5cb7a39dfd601aff275e883abe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 22/49] fix: undo_warp with squash_nans returned a warp that
 was not applied

---
 delayed_image/delayed_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index af494c0..0abb923 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1601,7 +1601,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_components = ub.dict_diff(all_undo_components, retain)
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
-        if squash_nans:
+        if squash_nans and isinstance2(undone_part, delayed_leafs.DelayedNans):
             if return_warp:
                 # hack the return undo_warp
                 assert undone_part.dsize is not None
@@ -1609,8 +1609,7 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 assert w is not None
                 assert h is not None
                 undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
-            if isinstance2(undone_part, delayed_leafs.DelayedNans):
-                undone_part = undone_part[0:1, 0:1].optimize()
+            undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
         else:
-- 
2.43.0


From 60e9e43e7fa5d994c18549d10f1d4d11d53219cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 23/49] fix: a nearest warp could use the inverse transform or
 stretch the image

The result of a nearest warp that is not axis aligned was chosen by comparing
pixel statistics of warps with the transform and with its inverse. Strong
downscales and shifts that show little of the image picked a wrong result.
---
 delayed_image/delayed_nodes.py | 91 ++++------------------------------
 1 file changed, 10 insertions(+), 81 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0abb923..13bebc0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1993,10 +1993,8 @@ class DelayedWarp(DelayedImage):
         )
         if matrix_mode == 'forward':
             M = np.asarray(transform)
-            alt_M = np.asarray(transform.inv())
         else:
             M = np.asarray(transform.inv())
-            alt_M = np.asarray(transform)
 
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
@@ -2057,85 +2055,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-            # Robustness for runtime convention mismatches: evaluate both
-            # conventions and keep the better-scoring result.
-            cand1 = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-            cand2 = kwimage.warp_affine(
-                prewarp,
-                alt_M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-
-            src_fin = np.isfinite(prewarp)
-            src_uniq = (
-                int(np.unique(prewarp[src_fin]).size) if src_fin.any() else 0
-            )
-
-            def _score(arr):
-                fin = np.isfinite(arr)
-                fin_ratio = float(fin.mean()) if fin.size else 0.0
-                uniq = int(np.unique(arr[fin]).size) if fin.any() else 0
-                # Prefer outputs with finite coverage and value diversity close
-                # to source for nearest-neighbor upscales.
-                uniq_gap = abs(uniq - src_uniq)
-                return (fin_ratio, -uniq_gap, uniq)
-
-            score1 = _score(cand1)
-            score2 = _score(cand2)
-            use_primary = score1 >= score2
-            final = cand1 if use_primary else cand2
-
-            # Last-resort rescue for pathological runtime stacks where both
-            # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
-                final = kwimage.imresize(
-                    prewarp, dsize=dsize, interpolation='nearest'
-                )
-
-            if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-                print(
-                    'DelayedWarp nearest matrix debug:',
-                    {
-                        'dtype': str(prewarp.dtype),
-                        'backend': backend,
-                        'matrix_mode': matrix_mode,
-                        'source_unique': src_uniq,
-                        'score_primary': score1,
-                        'score_alt': score2,
-                        'chosen': 'primary' if use_primary else 'alt',
-                        'is_near_scale_only': is_near_scale_only,
-                        'used_imresize_rescue': bool(
-                            max(score1[0], score2[0]) < 0.05
-                        ),
-                        'primary_preview': np.unique(cand1)[0:8].tolist(),
-                        'alt_preview': np.unique(cand2)[0:8].tolist(),
-                    },
-                )
-        else:
-            final = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
+        final = kwimage.warp_affine(
+            prewarp,
+            M,
+            dsize=dsize,
+            interpolation=interpolation,
+            antialias=use_antialias,
+            border_value=warp_border_value,
+            origin_convention='corner',
+            backend=backend,
+        )
 
         # final = kwimage.warp_projective(sub_data_, M, dsize=dsize, flags=flags)
         # Ensure that the last dimension is channels
-- 
2.43.0


From 08b50dab14c0917a6ba28f542b7ddf65068ea64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 24/49] fix: automatic output size was negative for images
 outside of the canvas

---
 delayed_image/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 219d326..932ab75 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -87,8 +87,9 @@ def _auto_dsize(transform, sub_dsize):
         # bounds = kwimage.warp_points(transform.matrix, sub_bounds)[0:2]
         bounds = (transform.matrix[0:2] @ sub_bounds.T).T
         max_xy = np.ceil(bounds.max(axis=0))
-    max_x = int(max_xy[0])
-    max_y = int(max_xy[1])
+    # nothing is visible if the image only maps to negative coordinates
+    max_x = max(0, int(max_xy[0]))
+    max_y = max(0, int(max_xy[1]))
     dsize = (max_x, max_y)
     return dsize
 
-- 
2.43.0


From eecacd478524a5ae9eaf4bf3d7568199740f2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 25/49] fix: lazy image files follow slice conventions for
 negative and empty ranges

A negative start returned the whole axis, a range behind the end or a reversed
range raised ValueError.
---
 delayed_image/lazy_loaders.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..be88247 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1086,17 +1086,28 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
-        stop = D if part.stop is None else min(D, part.stop)
-        if stop < 0:
-            stop = D + stop
         assert part.step is None
+        # same conventions as the builtin slice on a sequence of length D
+        start = 0 if part.start is None else part.start
+        stop = D if part.stop is None else part.stop
+        if start < 0:
+            start = start + D
+        if stop < 0:
+            stop = stop + D
+        start = min(max(0, start), D)
+        stop = max(start, min(stop, D))
         part = slice(start, stop)
         return part
     elif isinstance(part, int):
+        if not -D <= part < D:
+            raise IndexError(
+                f'index {part} is out of bounds for size {D}'
+            )
+        if part < 0:
+            part = part + D
         part = slice(part, part + 1)
     elif isinstance(part, list):
-        part = part
+        part = [p + D if p < 0 else p for p in part]
     else:
         raise TypeError(part)
     return part
-- 
2.43.0


From 81d91d4f050cbb50e0d0212784b665859afd304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 26/49] fix: a nearest warp dropped the mask of a masked image
 and filled it with wrapped values

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 13bebc0..da7f45e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1942,6 +1942,7 @@ class DelayedWarp(DelayedImage):
                 is_axis_aligned
                 and (has_translation or not is_full_canvas)
                 and not isinstance(border_value, str)
+                and not isinstance(prewarp, np.ma.MaskedArray)
             ):
                 out_w, out_h = map(int, dsize)
                 x_in = (np.arange(out_w) - tx) / sx
@@ -2034,6 +2035,7 @@ class DelayedWarp(DelayedImage):
                 and sx > 0
                 and sy > 0
                 and is_full_canvas
+                and not isinstance(prewarp, np.ma.MaskedArray)
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-- 
2.43.0


From 07c69bb9e560d3955d7b914e3c3ede68a503c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 27/49] fix: concatenating channels dropped the mask of masked
 images

---
 delayed_image/delayed_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index da7f45e..015c138 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -787,8 +787,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         if len(stack) == 1:
             final = stack[0]
         else:
-            stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            stack = [kwarray.atleast_nd(np.asanyarray(s), 3) for s in stack]
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From e8be06dff3cdd20527834cee41cffc8ed496ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 28/49] fix: a warp that mirrors the image failed with the
 default antialiasing

---
 delayed_image/delayed_nodes.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 015c138..5f627fe 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1990,16 +1990,6 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-        # delayed_image stores forward transforms, but kwimage.warp_affine
-        # matrix semantics differ across some dependency stacks.
-        matrix_mode = _warp_affine_matrix_mode(
-            dtype=prewarp.dtype, backend=backend, interpolation=interpolation
-        )
-        if matrix_mode == 'forward':
-            M = np.asarray(transform)
-        else:
-            M = np.asarray(transform.inv())
-
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
         # Also, nearest-neighbor interpolation should never use antialiasing.
@@ -2008,10 +1998,27 @@ class DelayedWarp(DelayedImage):
         elif bool(antialias):
             assert params is not None
             sx, sy = params['scale']
-            use_antialias = (sx < 1) or (sy < 1)
+            use_antialias = (abs(sx) < 1) or (abs(sy) < 1)
+            if use_antialias and sx * sy < 0:
+                # warp_affine cannot antialias a reflection, so flip the rows
+                # of the input beforehand.
+                prewarp = prewarp[::-1]
+                transform = transform @ kwimage.Affine.affine(
+                    scale=(1, -1), offset=(0, prewarp.shape[0])
+                )
         else:
             use_antialias = False
 
+        # delayed_image stores forward transforms, but kwimage.warp_affine
+        # matrix semantics differ across some dependency stacks.
+        matrix_mode = _warp_affine_matrix_mode(
+            dtype=prewarp.dtype, backend=backend, interpolation=interpolation
+        )
+        if matrix_mode == 'forward':
+            M = np.asarray(transform)
+        else:
+            M = np.asarray(transform.inv())
+
         warp_border_value = border_value
         if (
             interpolation == 'nearest'
-- 
2.43.0


From 94f58dea1a6dc5a92ec66064baf776f5578e722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 29/49] fix: a list of band indices below -N silently read
 other bands

---
 delayed_image/lazy_loaders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index be88247..1e4297f 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1107,6 +1107,11 @@ def _rectify_slice_dim(part, D):
             part = part + D
         part = slice(part, part + 1)
     elif isinstance(part, list):
+        for p in part:
+            if not -D <= p < D:
+                raise IndexError(
+                    f'index {p} is out of bounds for size {D}'
+                )
         part = [p + D if p < 0 else p for p in part]
     else:
         raise TypeError(part)
-- 
2.43.0


From efb2dc9f5e94f2be7b558f77a876980b757704ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 30/49] fix: simulating an overview dropped the mask of masked
 images

---
 delayed_image/delayed_nodes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5f627fe..37e977c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3205,13 +3205,20 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = np.asarray(sub_final)
+        sub_final = np.asanyarray(sub_final)
         final = kwimage.imresize(
-            sub_final,
+            np.ma.getdata(sub_final),
             dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
+        if isinstance(sub_final, np.ma.MaskedArray):
+            mask = kwimage.imresize(
+                np.ma.getmaskarray(sub_final).astype(np.uint8),
+                dsize=self.dsize,
+                interpolation='nearest',
+            )
+            final = np.ma.array(final, mask=mask.astype(bool))
         return final
 
     def optimize(
-- 
2.43.0


From 29ea91e2f0f1bbdfd5ceb9ddbf478a5e45a5e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 31/49] fix: warping a masked image without masked pixels
 failed

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 37e977c..cfc9e96 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1855,6 +1855,12 @@ class DelayedWarp(DelayedImage):
 
         prewarp = self.subdata._finalize()
         prewarp = np.asanyarray(prewarp)
+        if isinstance(prewarp, np.ma.MaskedArray):
+            if prewarp.mask is np.ma.nomask:
+                # warp_affine requires a mask with the shape of the image
+                prewarp = np.ma.array(
+                    prewarp, mask=np.ma.getmaskarray(prewarp)
+                )
 
         # TODO: we could configure this, but forcing nans on floats seems like
         # a pretty nice default border behavior. It would be even nicer to have
-- 
2.43.0


From 27564672d23c1facdfc7955b58eecdc33f4aa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 32/49] Restore channel_spec.py, whose name counts as a test
 file

---
 delayed_image/channel_spec.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d943539..fa2b8dc 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,8 +277,9 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other = ChannelSpec.coerce(other)
-        other_spec = other.spec
+            other_spec = str
+        else:
+            other_spec = other.spec
         if not self.spec:
             return other
         if not other_spec:
@@ -880,7 +881,8 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part, size in zip(self.parsed, self.sizes()):
+        for part in self.parsed:
+            size = self._size_lut.get(part, 1)
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
@@ -1572,7 +1574,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts.parsed], axis=axis
+                    [components[k] for k in parts], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 8866f4154f794060c93b56723d3ff3a691ec836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 33/49] fix: quantizing low precision floats overflowed the
 largest codes

---
 delayed_image/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 932ab75..047b92a 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -566,8 +566,11 @@ def quantize_float01(imdata, old_min=0, old_max=1, quantize_dtype=np.int16):
 
     if imdata is not None:
         invalid_mask = np.isnan(imdata)
+        # Low precision floats cannot represent all codes: the largest one
+        # may be rounded up to a value that overflows in the cast below.
+        precise = np.result_type(imdata.dtype, np.float64)
         new_imdata = (
-            imdata.clip(old_min, old_max) - old_min
+            imdata.clip(old_min, old_max).astype(precise) - old_min
         ) * quant_factor + quantize_min
         new_imdata = new_imdata.astype(quantize_dtype)
         new_imdata[invalid_mask] = quantize_nan
-- 
2.43.0


From 4bf1aaf707d42e61a5f5805ba25a43be4df8cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 34/49] fix: casting a grayscale image without channel names to
 xarray failed

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cfc9e96..26ff3ed 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1654,10 +1654,10 @@ class DelayedAsXarray(DelayedImage):
         subfinal = np.asarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         if channels is not None:
             coords['c'] = channels.code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From 2fb23af7449147f7f056241b32124d62ff4b86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 35/49] fix: casting a masked image to xarray revealed the
 values below the mask

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 26ff3ed..a2ba529 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1651,7 +1651,8 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        # xarray replaces the masked pixels of a masked array with nan
+        subfinal = np.asanyarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
         if len(subfinal.shape) == 2:
-- 
2.43.0


From 0a713a89a44035091d6e974aa2d26d140a6d4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 36/49] fix: a tree with an xarray cast could not report its
 transform

---
 delayed_image/delayed_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a2ba529..3a99ca1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1662,6 +1662,12 @@ class DelayedAsXarray(DelayedImage):
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
+    def _transform_from_subdata(self) -> kwimage.Affine:
+        """
+        A cast does not move any pixel
+        """
+        return kwimage.Affine.eye()
+
     def optimize(
         self, ctx: delayed_base.OptimizeContext | None = None
     ) -> DelayedAsXarray:
-- 
2.43.0


From 03e79ba279ed7620d137a88ad67b862213995ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 37/49] fix: optimizing a crop or warp of a no-data leaf lost
 its number of channels

---
 delayed_image/delayed_leafs.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..7ce217c 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -410,11 +410,14 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         assert space_slice is not None
+        channels = self.channels
         if chan_idxs is None:
-            channels = self.channels
+            if channels is None:
+                channels = self.num_channels
+        elif channels is None:
+            channels = len(chan_idxs)
         else:
-            assert self.channels is not None
-            channels = self.channels[chan_idxs]
+            channels = channels[chan_idxs]
         dsize = self.dsize
         assert dsize is not None
         width, height = dsize
@@ -437,7 +440,10 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        channels = self.channels
+        if channels is None:
+            channels = self.num_channels
+        new = self.__class__(dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 8541971db7c06c0243bdf57d0a0421a1d9d087cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 38/49] fix: a file could not be read with a full index that
 also has an ellipsis

---
 delayed_image/lazy_loaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 1e4297f..6bf1298 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1008,7 +1008,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
             # Expand the ellipsis
             ell_idx = index.index(Ellipsis)
             n = 1 + TOTAL_DIMS - len(index)
-            if n > 0:
+            if n >= 0:
                 index = (
                     index[:ell_idx]
                     + ([slice(None, None)] * n)
-- 
2.43.0


From 21e3bbf09eca449869a12154e2be7a0fb0ec1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 39/49] fix: readers ignored surplus indices instead of
 refusing them

---
 delayed_image/lazy_loaders.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 6bf1298..01b464e 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -331,6 +331,8 @@ class LazySpectralFrameFile(ub.NiceRepr):
         if len(index) < 3:
             n = 3 - len(index)
             index = index + [None] * n
+        elif len(index) > 3:
+            raise IndexError('too many indices for an image')
 
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
@@ -446,6 +448,8 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
         if len(index) < 3:
             n = 3 - len(index)
             index = index + [None] * n
+        elif len(index) > 3:
+            raise IndexError('too many indices for an image')
 
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
@@ -1022,6 +1026,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 index = index + [slice(None, None)] * n
                 # index = index + [None] * n
 
+        if len(index) > TOTAL_DIMS:
+            raise IndexError('too many indices for an image')
+
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
         channel_part = _rectify_slice_dim(index[2], C)
-- 
2.43.0


From 031d378c3ed07959ec0acee243248c1899ea13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 40/49] fix: an empty selection of bands could not be read from
 a file

---
 delayed_image/lazy_loaders.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 01b464e..33bc8a9 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -470,6 +470,9 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
         xstart, xstop = map(int, [xpart.start, xpart.stop])
 
         indexes = [b + 1 for b in band_indices]
+        if len(indexes) == 0:
+            shape = (ystop - ystart, xstop - xstart, 0)
+            return np.empty(shape, dtype=self.dtype)
         img_part = ds.read(
             indexes=indexes, window=((ystart, ystop), (xstart, xstop))
         )
@@ -775,6 +778,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return image
 
     def _compat_gdal_read(self, ds, band_indices, gdalkw, nodata_method):
+        if len(band_indices) == 0:
+            shape = (gdalkw['win_ysize'], gdalkw['win_xsize'], 0)
+            return np.empty(shape, dtype=self.dtype)
+
         selected_bands = tuple(self._read_bands[idx] for idx in band_indices)
         if nodata_method is None:
             selected_nodata_values = None
-- 
2.43.0


From 9965681592ae7667a85e539f166dc15e124bc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 41/49] fix: a concatenation never learned its number of
 channels from opened files

---
 delayed_image/delayed_nodes.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3a99ca1..1c44272 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -752,6 +752,23 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         else:
             return '{}, {}'.format(self.shape, self.channels)
 
+    def prepare(self):
+        """
+        If metadata is missing, perform minimal IO operations in order to
+        prepopulate metadata that could help us better optimize the operation
+        tree.
+
+        Returns:
+            DelayedOperation
+        """
+        super().prepare()
+        if self.num_channels is None:
+            # The parts may know their number of channels by now
+            nums = [comp.num_channels for comp in self.parts]
+            if all(num is not None for num in nums):
+                self.num_channels = sum(nums)
+        return self
+
     @property
     def channels(self) -> FusedChannelSpec | None:
         """
-- 
2.43.0


From 94230d32f9f019fce9bf731bcdd1971bd948090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 42/49] fix: the cv2 integer of nearest interpolation was
 antialiased and shifted

---
 delayed_image/delayed_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1c44272..3f23a01 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1875,6 +1875,8 @@ class DelayedWarp(DelayedImage):
         antialias = self.meta['antialias']
         transform = self.meta['transform']
         interpolation = self.meta['interpolation']
+        if not isinstance(interpolation, str) and interpolation == 0:
+            interpolation = 'nearest'  # the cv2 integer for this code
         backend = self.meta['backend']
 
         prewarp = self.subdata._finalize()
@@ -2859,7 +2861,7 @@ class DelayedCrop(DelayedImage):
             # rewrite for non-nearest warps where it recovers much smaller
             # intermediates without tripping the nearest off-by-one cases.
             interp = new.subdata.meta.get('interpolation', None)
-            if interp != 'nearest':
+            if interp not in ('nearest', 0):
                 pushed = new._opt_warp_after_crop()
                 if pushed is not new:
                     new = pushed.optimize(ctx)
-- 
2.43.0


From 9a19377bc36041ef6d3002877ed2305f9ee9d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 43/49] fix: a no-data image forgot a later request for masked
 or nan pixels when optimized

---
 delayed_image/delayed_leafs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index 7ce217c..dfa95fb 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -429,7 +429,8 @@ class DelayedNans(DelayedImageLeaf):
         new_width = box.width.ravel()[0]
         new_height = box.height.ravel()[0]
         new_dsize = (new_width, new_height)
-        new = self.__class__(new_dsize, channels=channels, **self._kwargs)
+        kwargs = {k: self.meta[k] for k in self._kwargs}
+        new = self.__class__(new_dsize, channels=channels, **kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_crop')
         return new
@@ -443,7 +444,8 @@ class DelayedNans(DelayedImageLeaf):
         channels = self.channels
         if channels is None:
             channels = self.num_channels
-        new = self.__class__(dsize, channels=channels, **self._kwargs)
+        kwargs = {k: self.meta[k] for k in self._kwargs}
+        new = self.__class__(dsize, channels=channels, **kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 743f5787c6bfdceab2f9472f0e22d07632461d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:44 +0000
Subject: [PATCH 44/49] fix: channels selected by a slice or a single index
 were wrong or failed

---
 delayed_image/delayed_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3f23a01..4011754 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -932,6 +932,8 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
         if isinstance(channels, list):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
@@ -1424,6 +1426,8 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
         if isinstance(channels, list):
             top_idx_mapping = [int(x) for x in channels]
         else:
@@ -2787,6 +2791,14 @@ class DelayedCrop(DelayedImage):
             space_slice = (slice(0, in_h), slice(0, in_w))
             self.meta['dsize'] = (in_w, in_h)
 
+        # An index, slice or array selects the same channels as a list
+        if isinstance(chan_idxs, slice):
+            num_channels = subdata.num_channels
+            if num_channels is not None:
+                chan_idxs = list(range(*chan_idxs.indices(num_channels)))
+        elif chan_idxs is not None and not isinstance(chan_idxs, list):
+            chan_idxs = np.atleast_1d(chan_idxs).tolist()
+
         if chan_idxs is not None:
             current_channels = self.channels
             if current_channels is not None:
-- 
2.43.0


From 6a9bf343024ac908c2a86669a021f21b01838b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 45/49] fix: an empty channel selection of a concatenation
 failed

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4011754..9843fb6 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1024,6 +1024,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             curr.add_inner(inner, code)
 
         # Accumulate final segment
+        if curr is None and self.parts:
+            # Nothing is requested: take no channel of any component
+            curr = _InnerAccumSegment(self.parts[0])
         if curr is not None:
             outer_accum.append(curr)
 
-- 
2.43.0


From d16558f62b94ffcbe23a2b29e3c266c45b96d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 46/49] fix: padding a whole image without giving a window
 failed

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 9843fb6..03393ab 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -429,6 +429,8 @@ class ImageOpsMixin:
         assert w is not None
         assert h is not None
         data_dims = (h, w)
+        if space_slice is None:
+            space_slice = (slice(None), slice(None))
         _data_slice, _extra_padding = kwarray.embed_slice(
             space_slice, data_dims, pad
         )
-- 
2.43.0


From f0b935f99f8b8765f8a42e04f51925f97c52fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 47/49] fix: channels of an array without a channel axis could
 not be selected

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 03393ab..a33b6fa 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2827,6 +2827,9 @@ class DelayedCrop(DelayedImage):
             full_slice = space_slice
         else:
             full_slice = space_slice + (chan_idxs,)
+            # Images without a channel axis have one channel
+            if len(sub_final.shape) == 2:
+                sub_final = kwarray.atleast_nd(sub_final, 3)
         # final = sub_final[space_slice]
         final = sub_final[full_slice]
         final = kwarray.atleast_nd(final, 3)
-- 
2.43.0


From 4976d99c00b1538f8cba481dfbb12f9e7486e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 48/49] fix: the channel axis of single channel images was
 lost, depending on optimization

---
 delayed_image/delayed_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_base.py b/delayed_image/delayed_base.py
index d5d5f88..f91112d 100644
--- a/delayed_image/delayed_base.py
+++ b/delayed_image/delayed_base.py
@@ -446,6 +446,9 @@ class DelayedOperation:
         # Ensure we are array like
         final = final[:]
         # final = np.asanyarray(final) # does not work with xarray
+        # Single channel data may be stored without a channel axis
+        if len(final.shape) == 2 and len(self.shape) == 3:
+            final = final[:, :, None]
         return final
 
     def optimize(self, ctx=None):
-- 
2.43.0


From 954d8b7e78490e70100f023fe21c650fafb5efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:23 +0000
Subject: [PATCH 49/49] fix: crops outside of a warped image dropped the pixels
 on its edge

---
 delayed_image/helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 047b92a..3dc8af5 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -255,6 +255,11 @@ def _swap_warp_after_crop(in_crop2, in_warp1, origin_convention='corner'):
     # Quantize to a region that is possible to sample from
     leaf_crop_box = leaf_region_box.quantize(inplace=True)
 
+    # The padding depends on the extent of the region before it is clipped, a
+    # region outside of the image still samples the pixels on its edge.
+    leaf_w = leaf_region_box.width
+    leaf_h = leaf_region_box.height
+
     # is this ok?
     # leaf_crop_box = leaf_crop_box.clip(0, 0, None, None, inplace=True)
     # Optimized clip
@@ -286,8 +291,6 @@ def _swap_warp_after_crop(in_crop2, in_warp1, origin_convention='corner'):
         root_region_box = root_region_bounds.box()
         old_w = root_region_box.width
         old_h = root_region_box.height
-        leaf_w = leaf_region_box.width
-        leaf_h = leaf_region_box.height
 
         # TODO: test the case where old_w or old_h are zero
         # Attempt to work around issue #4
-- 
2.43.0

