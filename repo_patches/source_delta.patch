From 9eaa5b3395fa065ae8e15f1a7d430e0363ba735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 01/21] fix: file arrays accept reversed and empty slices

BinaryFileArray_1D[::-1] raised a TypeError (slice without bounds) and
BinaryFileArray_1D[5:2] an Exception (negative read length).
---
 src/razorback/io/binary_file_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..bf57e67 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -84,7 +84,7 @@ class BaseArrayProxy(object):
                 return slice(*index.indices(dim)), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
@@ -147,7 +147,7 @@ class BinaryFileArray_1D(FileArrayProxy):
 
         with open(filename, 'rb') as f:
             f.seek(offset + self.dtype.itemsize * idx.start)
-            length = idx.stop - idx.start
+            length = max(0, idx.stop - idx.start)
             arr = np.fromfile(f, dtype=self.dtype, count=length)
             if len(arr) != length:
                 # warnings.warn(f"while reading file {str(self.source)!r} : get {len(arr)} values but header indicates {length}")
-- 
2.43.0


From e6710303b73b574821439353fecb7beff6e29823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 02/21] fix: give lazily loaded recordings their own dask
 identity

Naming the dask array after the file name given by the caller makes arrays of
different files (same relative name in two working directories) or different
chunkings of one file share their task keys: evaluated jointly, one silently
gets the samples of the other.
---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..c149c55 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,7 +64,7 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    arr = to_dask_array(bf_arr, name=filename)
+    arr = to_dask_array(bf_arr)
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 89d556b677aa79163327acc1d62a1dc9b50c574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/21] fix: don't share np.errstate objects between threads

An errstate object stores the state it restores on exit: used by two threads at
once, it restores the settings of one in the other.
---
 src/razorback/weights.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index fa415bf..7d7fdbf 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -14,9 +14,17 @@ __all__ = [
 ]
 
 
-ignore_overflow = np.errstate(over='ignore')
-ignore_invalid = np.errstate(invalid='ignore')
-ignore_divide = np.errstate(divide='ignore')
+# np.errstate objects keep the state to restore: they can't be shared by threads
+def ignore_overflow():
+    return np.errstate(over='ignore')
+
+
+def ignore_invalid():
+    return np.errstate(invalid='ignore')
+
+
+def ignore_divide():
+    return np.errstate(divide='ignore')
 
 
 class Weights(object):
@@ -52,7 +60,7 @@ class Huber(object):
     def __call__(self, it, residual, e, b, invalid_idx):
         x = vnorm(residual)
         scale = mad_scale(x, is_absolute=True)
-        with ignore_invalid:
+        with ignore_invalid():
             result = np.minimum(1, (self._alpha * scale) / x)
         return result
 
@@ -116,7 +124,7 @@ class BoundedInfluenceStep(object):
         A = H(b).dot(dotdiag(_prev['bi_weight'], b))
         h = _prev['bi_weight'] * np.sum(linalg.solve(A, H(b)) * b.T, axis=0).real
         y = _prev['trace_bi_weight'] * h / p
-        with ignore_divide:
+        with ignore_divide():
             hat_weight = _prev['hat_weight'] * expexp(y, self._khi) * expexp(np.log(y), np.log(self._lower))
 
         bi_weight = weight * hat_weight
@@ -157,21 +165,21 @@ def median_absolute_deviation(arr, is_absolute=False):
     if not is_absolute:
         arr = vnorm(arr)
     med = np.nanmedian(arr)
-    with ignore_invalid:
+    with ignore_invalid():
         abs_dev = vnorm(arr - med)
     return np.nanmedian(abs_dev)
 
 
 def expexp(x, a):
     C = np.exp(-a ** 2)
-    with ignore_overflow:
+    with ignore_overflow():
         result = np.exp(C - np.exp(a * (x - a)))
     return result
 
 
 def m_expexp(x, a):
     C = np.exp(-np.exp(-1./a))
-    with ignore_overflow:
+    with ignore_overflow():
         result = (1. - np.exp(-np.exp((x - a) / a))) / C
     return result
 
-- 
2.43.0


From 6c281b77d5d24f7cde8ab1525d013419a47b17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 04/21] fix: weight functions keep the state of a fit by thread

Thomson and BoundedInfluenceStep store values from one iteration to the next on
the weight object.  Two estimations running in two threads with the same
weights (mest_weights is shared by the whole process) overwrote each other's
state and gave wrong transfer functions or failed.
---
 src/razorback/weights.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index 7d7fdbf..a4e8929 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -2,6 +2,8 @@
 """
 
 
+from threading import get_ident
+
 import numpy as np
 from scipy import linalg
 
@@ -69,7 +71,7 @@ class Thomson(object):
     def __init__(self, xi=None):
         assert xi is None or xi > 0
         self._xi = xi
-        self._data = {}
+        self._data = {}  # one entry by thread: weights can be shared
 
     def __str__(self):
         if self._xi is None:
@@ -83,9 +85,9 @@ class Thomson(object):
 
         x = vnorm(residual)
         if it == 0:
-            scale = self._data['scale'] = mad_scale(x, is_absolute=True)
+            scale = self._data[get_ident()] = mad_scale(x, is_absolute=True)
         else:
-            scale = self._data['scale']
+            scale = self._data[get_ident()]
         x /= scale
         return expexp(x, xi)
 
@@ -99,7 +101,7 @@ class BoundedInfluenceStep(object):
         self._weight_func = weight_func
         self._lower = lower
         self._khi = khi
-        self._prev = {}
+        self._prev = {}  # one entry by thread: weights can be shared
 
     def __str__(self):
         return 'BoundedInfluenceStep(%s, %g, %g)' % (
@@ -108,7 +110,7 @@ class BoundedInfluenceStep(object):
         )
 
     def __call__(self, it, residual, e, b, invalid_idx):
-        _prev = self._prev
+        _prev = self._prev.setdefault(get_ident(), {})
         if it == 0:
             _prev['it'] = -1
             _prev['bi_weight'] = 1.
-- 
2.43.0


From 876f32f301d76536dd024f2dcfa3dd38bb7aeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 05/21] fix: shape of the result of a frequency without
 coefficients

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..eced593 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From aa774247bb21f81fde793a3d52fe735bf0883438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 06/21] fix: a failing prefilter only spoils its frequency

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index eced593..c8ab3a9 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,8 +255,8 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
-- 
2.43.0


From 2ad01c3716e0a2cba941a7d7dce5ba3abd52fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 07/21] fix: time stamps are compared within their floating
 point resolution

---
 src/razorback/signalset.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..f0ea4de 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -31,6 +31,11 @@ def _tupleit(value):
         return (value,)
 
 
+def _time_resolution(*times):
+    " uncertainty of computed time stamps due to their floating point rounding "
+    return 8 * np.spacing(max(map(abs, times)))
+
+
 class TagsBase(MutableMapping):
     " Base class for Tags "
     def __init__(self, indices, dct):
@@ -507,8 +512,8 @@ class SignalSet(object):
                 yield d, f
                 return
             for dh, fh in seq[0]:
-                if fh <= d: continue
-                if f <= dh: return
+                if fh - d <= _time_resolution(fh, d): continue
+                if f - dh <= _time_resolution(f, dh): return
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
@@ -525,7 +530,8 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            eps = _time_resolution(start, stop)
+            assert all(abs(s.start - start) <= eps for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
@@ -616,7 +622,8 @@ class SignalSet(object):
         for sampling in np.unique(self.sampling_rates):
             mask = self.sampling_rates == sampling
             start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            eps = _time_resolution(*self.intervals.flat)
+            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1], atol=1e-8+eps)
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
@@ -781,6 +788,11 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        nearest = np.round(index)
+        # don't miss a sample because of the rounding of time or self.start
+        eps = _time_resolution(time, self.start) * self.sampling_rate
+        if abs(index - nearest) <= min(eps, .25):
+            return int(nearest)
         return int(round_(index))
 
     def _index_to_time(self, index):
-- 
2.43.0


From f1720cc755db21c1706ed26afef8f73ac76f10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 08/21] fix: a signal set without run keeps its untagged
 channels

---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index f0ea4de..06c87b3 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -414,6 +414,8 @@ class SignalSet(object):
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
+        if not n and vidx is not None:
+            n = len(vidx)
         self._tags = Tags(n or None, **value)
 
     def select_channels(self, channels):
-- 
2.43.0


From 491233b341ac462446812b99a99cb6ac32ea22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 09/21] fix: runs sharing an instant don't overlap by rounding

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 06c87b3..fce144e 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -248,7 +248,8 @@ class SignalSet(object):
         assert len(lengths) <= 1, "all signals must have the same length"
 
         l = sorted((s.interval for s in signals), key=lambda e: e[0])
-        assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), "signals must not overlap"
+        assert all(l[i][1] - l[i+1][0] <= _time_resolution(l[i][1], l[i+1][0])
+                   for i in range(len(l)-1)), "signals must not overlap"
 
         self._signals = tuple(sorted(signals, key=lambda s: s.start))
         self._tags = None
-- 
2.43.0


From 190b0189532aad8183b3b38146e5ec1af4d59a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 10/21] fix: channels of an ats directory in the order of their
 names

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c149c55..f59c82d 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(path, '*.ats'))
+    filenames = sorted(glob.glob(os.path.join(path, '*.ats')))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From 78950074d565adc21527acad1f8ab6db0a7338a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 11/21] fix: a disk error never shortens a phoenix calibration
 table

---
 src/razorback/calibrations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index eac41cf..bbd55aa 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -136,10 +136,10 @@ def phoenix(cts_file, level):
     cols = range(2 + 2 * n)
     try:
         data = np.loadtxt(cts_file, delimiter=',', skiprows=1, usecols=cols)
-    except Exception:
+    except ValueError:  # line of column names
         data = np.loadtxt(cts_file, delimiter=',', skiprows=2, usecols=cols)
     data = data[data[:, 1] == level]
-    assert data.size, f"no level {level} in {cts_file:r}"
+    assert data.size, f"no level {level} in {cts_file!r}"
     freq = data[:, 0]
     values = data[:, 2::2] + 1j * data[:, 3::2]
     calibs = [
-- 
2.43.0


From ca9738c614e3cc5b98dded9d7f954876403013a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 12/21] fix: sets without name don't prevent an inventory from
 packing

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index fce144e..3d5e8e4 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1031,7 +1031,7 @@ class Inventory(object):
         return new_inv
 
     def _join_merge(self):
-        if not self:
+        if not self.tags:
             return type(self)._type({})
 
         group_keys = dict()
-- 
2.43.0


From d6a64e42552bf1bc0713f819d1c06b2699cd772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 13/21] fix: load every file of an ats directory or raise

---
 src/razorback/io/ats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index f59c82d..46e1285 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -4,7 +4,7 @@
 
 import os
 import struct
-import glob
+import fnmatch
 
 import numpy as np
 
@@ -19,7 +19,9 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = sorted(glob.glob(os.path.join(path, '*.ats')))
+    # glob would hide errors and interpret the special characters of path
+    names = sorted(fnmatch.filter(os.listdir(path), '[!.]*.ats'))
+    filenames = [os.path.join(path, name) for name in names]
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From d4d9d98ed08939f2f750f4ccda9aea832a5483ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 14/21] fix: read a phoenix calibration file once

---
 src/razorback/calibrations.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index bbd55aa..4d7de5f 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -129,15 +129,16 @@ def phoenix(cts_file, level):
 
     """
     with open(cts_file) as f:
-        (
-            date, serial_num, fieldtype, nb_channels
-        ) = filter(None, map(str.strip, f.readline().strip().split(',')))
+        lines = f.readlines()
+    (
+        date, serial_num, fieldtype, nb_channels
+    ) = filter(None, map(str.strip, lines[0].strip().split(',')))
     n = int(nb_channels)
     cols = range(2 + 2 * n)
     try:
-        data = np.loadtxt(cts_file, delimiter=',', skiprows=1, usecols=cols)
+        data = np.loadtxt(lines[1:], delimiter=',', usecols=cols)
     except ValueError:  # line of column names
-        data = np.loadtxt(cts_file, delimiter=',', skiprows=2, usecols=cols)
+        data = np.loadtxt(lines[2:], delimiter=',', usecols=cols)
     data = data[data[:, 1] == level]
     assert data.size, f"no level {level} in {cts_file!r}"
     freq = data[:, 0]
-- 
2.43.0


From bdb63a11ff5d9c74b1c1fdab96e96fad3c508297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 15/21] fix: creating the local data path copes with concurrent
 invocations

---
 src/razorback/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/razorback/cli.py b/src/razorback/cli.py
index 127fc92..b764336 100644
--- a/src/razorback/cli.py
+++ b/src/razorback/cli.py
@@ -57,10 +57,13 @@ def path_action(ctx, target):
         click.echo(rzb.data.data_path(target))
     else:
         p = rzb.data.local_data_path(target)
-        if p.exists():
+        try:
+            p.mkdir(parents=True)
+        except FileExistsError:
+            if not p.is_dir():
+                raise
             click.echo(f"{p} already exists")
         else:
-            p.mkdir(parents=True)
             click.echo(f"{p} created")
 
 
-- 
2.43.0


From 31ffc41e1857f15c2d67bfbc258992cf5ab5b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 16/21] fix: mass processing of remotes without common time

---
 src/razorback/signalset.py | 8 ++++++++
 src/razorback/utils.py     | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 3d5e8e4..844cce3 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1026,10 +1026,18 @@ class Inventory(object):
         new_inv = type(self)()
         for new_tag, old_tags in group_tags:
             sig = self.filter(*old_tags).pack()
+            if not sig.nb_runs:
+                sig = self._without_run(old_tags)
             sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())
             new_inv.append(sig)
         return new_inv
 
+    def _without_run(self, tags):
+        " return a SignalSet with tags of the inventory but without any run "
+        sizes = {t: len(s.tags[t]) for s in self for t in s.tags}
+        stops = itertools.accumulate(sizes[t] for t in tags)
+        return type(self)._type({t: range(i - sizes[t], i) for t, i in zip(tags, stops)})
+
     def _join_merge(self):
         if not self.tags:
             return type(self)._type({})
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index c8ab3a9..e14d12e 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -100,6 +100,8 @@ def impedance_mass_proc(
         else:
             options['remote'] = None
         data = rinv.pack()
+        if not data.nb_runs:  # nothing in common: every estimation is empty
+            data = rinv._without_run(['E', 'B'] + (['Bremote'] if remote_tags else []))
 
         tl_z, tl_ivt, tl_err, tl_T = [], [], [], []
         for i, interval in enumerate(l_interval):
-- 
2.43.0


From 4f12dd4ba2d8b2e55d42defc5a136dce4d18ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 17/21] fix: prefilter values leave the given signal set as it
 is

---
 src/razorback/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index e14d12e..afa2e42 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -357,7 +357,6 @@ def prefilter_values_mass_proc(
         options = dict()
         if Bremote:
             options['remote'] = 'Bremote'
-            data.tags['Bremote'] = Bremote
 
         tl_values = []
         tl_times = []
@@ -365,6 +364,8 @@ def prefilter_values_mass_proc(
             n, m = map(len, [remote_combination, l_interval])
             print('%.1f%%' % ((100. * (k*m+i) / (n*m))))
             rdata = data.extract_t(*interval)
+            if Bremote:
+                rdata.tags['Bremote'] = Bremote
             l_values, l_times = prefilter_values(rdata, l_freq, prefilter, **options)
             tl_values.append(l_values)
             tl_times.append(l_times)
-- 
2.43.0


From f9c91c47a31ed43c428ee8c75cd6081d876f8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 18/21] fix: Tags.filter gives the tags in their order

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 844cce3..8ab12e1 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -142,7 +142,8 @@ class Tags(TagsBase):
 
     # filter = fnmatch.filter
     def filter(self, *patterns):
-        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))
+        found = set().union(*(fnmatch.filter(self, p) for p in patterns))
+        return tuple(t for t in self if t in found)
 
     def filter_get(self, *patterns):
         return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))
-- 
2.43.0


From 4668f2bf5aab61fc5d77e22d4de547bf5e71a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 19/21] fix: packing single tags doesn't depend on the hash
 seed

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 8ab12e1..ea98645 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1072,7 +1072,7 @@ class Inventory(object):
         if not keep_multi_tags:
             tags = {t for s in self for t in self.tags
                     if len(s.tags.get(t, ())) == 1}
-            content = itertools.chain(*map(self.select_channels, tags))
+            content = itertools.chain(*map(self.select_channels, sorted(tags)))
             inventory = type(self)(content)
             return inventory.pack(True)
         freqs, tags = list(self.sampling_rates), self.tags
-- 
2.43.0


From 5f021fdfcc5119964e7baf38c9995667ac364ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 20/21] fix: signal sets can be copied and serialised

---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index ea98645..cee3ace 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -298,6 +298,8 @@ class SignalSet(object):
         return res
 
     def __getattr__(self, name):
+        if name.startswith('_'):  # not a tag, maybe missing while unpickling
+            return super(SignalSet, self).__getattribute__(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From 1f881be643fbf032d509f4d8b558dd33aa7fe642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 21/21] fix: impedance with real_pb=True always failed, and
 mixed indices of windows and of their real and imaginary parts

---
 src/razorback/utils.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index afa2e42..afdcbdc 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -395,9 +395,32 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(
+    outputs, inputs,
+    weights=(None,),
+    init=None, invalid_idx=None,
+    **options
+):
+    """ same as transfer_function() solving the equivalent real problem
+
+    Each complex value of outputs and inputs becomes two real values (real and
+    imaginary parts) which are weighted and rejected separately.
+    invalid_idx are indices of the complex values, in the result a value is
+    invalid when at least one of its parts is rejected.
+    """
     q, n = np.shape(inputs)
 
+    if invalid_idx is None or not len(invalid_idx):
+        invalid_idx = [()] * len(outputs)
+    if not hasattr(invalid_idx[0], '__getitem__'):
+        invalid_idx = [invalid_idx] * len(outputs)
+    parts = np.arange(2 * n).reshape((n, 2))
+    new_ivid = [parts[np.array(ivid, dtype=int)].ravel() for ivid in invalid_idx]
+
+    if init is not None:
+        init = [None if z is None else
+                np.transpose([np.real(z), np.imag(z)]).ravel() for z in init]
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -413,11 +436,12 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, new_ivid = transfer_function(
+        new_out, new_in, weights, init, new_ivid, **options)
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
 
-    return z, ivid
+    return z, [np.unique(ivid // 2) for ivid in new_ivid]
 
 
 def compute_prefilter(data, freq, prefilter, remote=None, fourier_opts=None):
-- 
2.43.0

