From 1cf085ccadbdaef77a9b8f50262e2028172add19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 01/56] fix: threaded() must not yield the end-of-video
 sentinel

---
 cddm/video.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..86a6ae6 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -594,11 +594,12 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
+        
         if out is None:
             break
         
+        yield out
+        
 def figure_title(name):
     """Generate a unique figure title"""
     i = len(_FIGURES)+1
-- 
2.43.0


From c9345d804d4642cf2aee5fc9dec073606349ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 02/56] fix: asmemmaps() accepts any iterable, not only
 iterators

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 86a6ae6..22699f8 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From 4623aaa44f4ce5e14eb1a55e940aa1ff7fbcedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 03/56] fix: enable_prints(level) restores the level it is
 given, so that nested disable/enable pairs work

---
 cddm/print_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..9dbb7f3 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -51,6 +51,6 @@ def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
     value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else value
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From 3649bc8ecbec37ea35114c624ba4d0e486a1b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 04/56] fix: increasing() filter sets the first output element

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..8ed7714 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From a9e1bf273b600f6894786a125bad4f62717fe744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 05/56] fix: k_select() with a scalar k passes masked_data to
 the selection function

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..1927bcc 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -668,7 +668,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 7a5af4d73a74eff7ee8fe99fb6dba36c799b31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 06/56] fix: k_select() of rfft2 data takes conjugated cells
 from the fullspace selection mask

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 1927bcc..eacb968 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -310,8 +310,8 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
     ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
-- 
2.43.0


From e70dd10ced6b644f4a53b8565d1ae63890fde844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 07/56] fix: iacorr() default norm is valid

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..00b5c8c 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1392,7 +1392,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 79e23813d0c5c40923879482f4fdf3dfdb991c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 08/56] fix: complex multitau slow data has the size and count
 of complex ccorr/acorr data

---
 cddm/multitau.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..757bec8 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -229,19 +229,22 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
 
     k_shape = data_fast[0].shape[0:-1]
     
+    #complex cross-correlation also stores negative delays
+    n_slow_full = _full_size(n_slow) if complex and cross else n_slow
+    
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (n_slow_full,) if complex else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow_full,) + k_shape[-1:] if complex else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, n_slow_full,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From a37f88f5d1fac6a9c391ed3f651126cbd8fd6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 09/56] fix: iterative complex auto-correlation keeps positive
 delays between neighbouring chunks

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 757bec8..75242eb 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -933,7 +933,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #older chunk goes first, so that time delays are positive in the complex calculation
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1007,7 +1008,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 02a511d1cf5cf4ce1c332820f5ffba0d463c255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 10/56] fix: iterative multitau with BINNING_FIRST takes first
 frames, as the in-memory version does

---
 cddm/multitau.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 75242eb..026d125 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -437,8 +437,10 @@ def _add_data1(i,x, out, binning = True, r = None):
                     out[j,index_low,...] = x                    
             else:
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -488,9 +490,13 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out2[j,index_low,...] = x2                    
             else:
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From 921fa44b210d8ba1e1daadd3a36fded2ac823a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 11/56] fix: explicit nlevel must not disable the slow levels
 computed after the last chunk

---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 026d125..16f2e5b 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -764,9 +764,9 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        if min(nlevel + 1, n_decades_max) < 1:
             raise ValueError("Invalid nlevel")
+        n_decades = min(nlevel + 1, n_decades_max, n_decades)
         nlevel = min(int(nlevel),n_decades_max -1)
               
     t_slow = np.arange(nframes)
-- 
2.43.0


From 211cc060775f2078a61b50ad9154205621aa3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 12/56] fix: reshape_output() restores 1D, 3D and masked frames
 computed with thread_divisor

---
 cddm/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 00b5c8c..7f09a59 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -364,7 +364,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(x.shape[0:-2] + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -375,11 +375,17 @@ def reshape_output(data, shape = None, mask = None):
     if shape is None:
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
+        shape = (np.count_nonzero(mask),)
+    
+    if isinstance(data, np.ndarray):
+        x0 = data
+        n_level_axes = x0.ndim - len(shape) - 1
     else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        x0 = data[0]
+        #frames may be reshaped (threaded), but count data is not
+        n_level_axes = data[1].ndim - 1
+        
+    shape = x0.shape[0:n_level_axes] + tuple(shape) + (x0.shape[-1],) 
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
-- 
2.43.0


From 1e6878707cbec7364c5017d83493a5e930b1abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 13/56] fix: multitau BINNING_CHOOSE makes the same choice for
 both signals and their squares

---
 cddm/multitau.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 16f2e5b..e50e169 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -274,11 +274,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        r = np.random.rand() #the same choice for all data, in case of BINNING_CHOOSE
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From d24f449274856e70e6782fc8301dd3dd11caff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 14/56] fix: fold_data() with mode = -1 returns out[i] =
 data[-i]

---
 cddm/norm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..b76b834 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -855,10 +855,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #take zero delay and all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From af331587e56cb7f697d93bdcbef938add655e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 15/56] fix: single background and variance arrays with two
 rows are not taken for a pair

---
 cddm/norm.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index b76b834..a7ddc3f 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -152,11 +152,15 @@ def scale_factor(variance, mask = None):
     """
     if variance is None:
         raise ValueError("You must provide variance data for normalization")
-    try:
-        v1, v2 = variance
-        scale = (np.asarray(v1) + np.asarray(v2))/2
-    except:
-        scale = np.asarray(variance)  
+    if isinstance(variance, np.ndarray):
+        #single data, regardless of the size of the first axis
+        scale = variance
+    else:
+        try:
+            v1, v2 = variance
+            scale = (np.asarray(v1) + np.asarray(v2))/2
+        except:
+            scale = np.asarray(variance)  
     if mask is None:
         return scale
     else:
@@ -248,10 +252,12 @@ def noise_delta(variance, mask = None, scale = True):
         Scalled delta value.
     """
     try:
+        if isinstance(variance, np.ndarray):
+            raise ValueError("Single data")
         v1, v2 = variance
         delta = (np.asarray(v2) - np.asarray(v1))
         scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
-        delta /= scale
+        delta = delta / scale
     except:
         #single data has delta = 0.
         scale = np.asarray(variance) 
@@ -446,6 +452,8 @@ def _variance2offset(variance, mask):
 def _inspect_background(background, norm, mask):
     if background is not None:
         try:
+            if isinstance(background, np.ndarray):
+                raise ValueError("Single data")
             bg1, bg2 = background
         except:
             bg1, bg2 = background, background
-- 
2.43.0


From fe58ebb3c42c878ec523de8b533a8c70ad41981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 16/56] fix: rfft2_crop() and fft2_crop() work with kimax = 0
 and kjmax = 0

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From ab1eab599b0a445c8777249303f9bfa991eecf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 17/56] fix: data_trigger() with no indices yields nothing

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..be0f176 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -292,6 +292,9 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if len(t) == 0:
+        return #nothing to select
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From 390f9b0b5b4dbb6af2dd85721fc8160725a4dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 18/56] fix: delays larger than the data length carry zero, not
 out-of-bounds or wrapped data

---
 cddm/_core_nb.py | 39 +++++++++++++++++++--------------------
 cddm/core.py     |  9 +++++++++
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 8ed7714..ad08e65 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -573,13 +573,12 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     out_length = len(dummy)
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
-    length = len(x)
-    tmp1 = np.empty((length*2), x.dtype)
-    tmp1[0:length] = x
-    tmp1[length:] = 0.
-    tmp2 = np.empty((length*2), y.dtype)
-    tmp2[0:length] = y
-    tmp2[length:] = 0.  
+    #zero-pad, so that there is no wrap-around for delays larger than data length
+    length = max(len(x), out_length)
+    tmp1 = np.zeros((length*2), x.dtype)
+    tmp1[0:len(x)] = x
+    tmp2 = np.zeros((length*2), y.dtype)
+    tmp2[0:len(y)] = y
     x = _fft(tmp1, overwrite_x = True)
     y = _fft(tmp2, overwrite_x = True)
     
@@ -596,10 +595,10 @@ def _cross_corr_fft_regular(x, y, dummy, out):
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
-    length = len(x)
-    tmp = np.empty((length*2), x.dtype)
-    tmp[0:length] = x
-    tmp[length:] = 0.
+    #zero-pad, so that there is no wrap-around for delays larger than data length
+    length = max(len(x), out_length)
+    tmp = np.zeros((length*2), x.dtype)
+    tmp[0:len(x)] = x
  
     x = _fft(tmp, overwrite_x = True)
     x = x*np.conj(x)
diff --git a/cddm/core.py b/cddm/core.py
index 7f09a59..103cb0b 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -189,6 +189,11 @@ def _default_out(out, data_shape, n, calc_axis, dtype = FDTYPE, complex = False)
             raise ValueError("Wrong output dtype")
     return out
 
+def _determine_fft_length(length, out, complex = False):
+    #delays larger than data length must not wrap around
+    n = (out.shape[-1] + 1)//2 if complex else out.shape[-1]
+    return max(length, n)
+
 def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex = False, aout = None):
     """Calculates cross-correlation function of two equal sized input arrays using FFT.
     
@@ -215,6 +220,7 @@ def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex
         return _cross_corr_fft_regular(f1,f2,out, out)
     else:
         #random spaced data algorithm
+        length = _determine_fft_length(length, out, complex)
         return _cross_corr_fft(f1,f2,t1,t2,length,out, out) 
     
 def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout = None):
@@ -242,6 +248,7 @@ def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout =
         return _auto_corr_fft_regular(f,out, out) 
     else:
         #random spaced data algorithm
+        length = _determine_fft_length(length, out)
         return _auto_corr_fft(f,t,length,out, out)
     
 def _is_aligned(data, axis, align):
@@ -855,6 +862,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         if time_inversion:
             t, t_other = -t, -t_other
         #we need conjugate version of FFT of zero-padded ones at t_other times
+        length = _determine_fft_length(length, out, complex)
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
         y = _fft(y, overwrite_x = True)
@@ -951,6 +959,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         raise ValueError("Not implemented for regular spaced data! Use auto_sum instead.")
     else:        
         #we need conjugate version of FFT of zero-padded ones at t_other times
+        length = _determine_fft_length(length, out)
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
         y = _fft(y, overwrite_x = True)
-- 
2.43.0


From c8367ffd14db0657fcbad88f5cda1efca5e15c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 19/56] fix: iterative auto-correlation with method 'diff' does
 not fail on the second chunk

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index e50e169..27fb454 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -818,6 +818,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From aa44fc607236d0c1dd8e414dffed8d991c6c153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 20/56] fix: multitau computation over axis other than 0 does
 not mix time with frame axes

---
 cddm/core.py     | 7 +++++--
 cddm/multitau.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 103cb0b..596407d 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -325,8 +325,11 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     n = shape.pop(axis)
     force_2d = True if mask is None else False
     new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    if new_shape != shape:
+        #frames can be reshaped only if computation axis is not in between the frame axes
+        f = np.moveaxis(f, axis, 0).reshape([n] + new_shape)
+        f = np.moveaxis(f, 0, min(axis, f.ndim-1))
+    return f, tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
diff --git a/cddm/multitau.py b/cddm/multitau.py
index 27fb454..07d9cbe 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -181,6 +181,7 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
+    axis = min(axis % (len(kshape) + 1), f1.ndim - 1)
 
     new_axis = -2 if f1.ndim > 1 else -1    
 
-- 
2.43.0


From 410e4cd80de9511d604905abead4225bd0334d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 21/56] fix: weighted normalization uses the scaled noise
 difference also when scale = False

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index a7ddc3f..623e155 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -582,11 +582,11 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         weighted_data = base_data
         
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From 2c82509102258bd7897f9e091352f22be8bc9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 22/56] fix: weighted normalization writes to the given output
 array

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 623e155..d46edde 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -627,9 +627,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out = out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out = out)
         
     count = data[1]
     
-- 
2.43.0


From 41ff7f6efe90ab5307bfaa0def69c712cc1ef638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 23/56] fix: log_interpolate() mixed linear and logarithmic
 times when a segment starts below one

---
 cddm/_core_nb.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index ad08e65..e0fcc10 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -102,28 +102,18 @@ def _log_interpolate(x_new, x,y, out):
     """Linear interpolation in semilogx space."""
     assert len(x) >= 2
     for i in range(len(x_new)):
-        xi = x_new[i]
-        log = False
-        if xi > 1:
-            xi = np.log(xi)
-            log = True
+        #find the segment, the last one is used to extrapolate forward
         for j in range(1,len(x)):
-            x0 = x[j-1]
-            x1 = x[j]            
-            if x0 >= 1 and log == True:
-                x0 = np.log(x0)
-                x1 = np.log(x1)
             if x_new[i] <= x[j]:
-                #interpolate or extrapolate backward
-                deltay = y[j] - y[j-1]
-                deltax = x1-x0
-                out[i] = (xi - x0) * deltay / deltax +  y[j-1]
                 break
-        #extrapolate forward for data points outside of the domain
-        if xi > x1:            
-            deltay = y[-1] - y[-2]
-            deltax = x1 - x0
-            out[i] = (xi - x0) * deltay/deltax +  y[-2]    
+        if x[j-1] >= 1 and x_new[i] > 1:
+            xi, x0, x1 = np.log(x_new[i]), np.log(x[j-1]), np.log(x[j])
+        else:
+            #logarithm of zero is not defined, so this segment is linear
+            xi, x0, x1 = float(x_new[i]), float(x[j-1]), float(x[j])
+        deltay = y[j] - y[j-1]
+        deltax = x1 - x0
+        out[i] = (xi - x0) * deltay / deltax +  y[j-1]
 
 def log_interpolate(x_new, x,y, out = None):
     """Linear interpolation in semilogx space."""
-- 
2.43.0


From 56158481a038f385b67ffbaf48edeb61265603e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 24/56] fix: multilevel_count() was not centered when the
 averaging kernel is longer than the data

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 07d9cbe..c5be8b9 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1335,8 +1335,10 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
             kernel = np.array([1.]) #np.array([1./2**l])
         kernel2 = kernel**2
         
-        data = np.convolve(kernel2, count2, "same")
-        norm = np.convolve(kernel, count , "same")
+        #centered convolution; mode = "same" is not centered if kernel is longer than data
+        center = slice(len(kernel)//2, len(kernel)//2 + count.shape[-1])
+        data = np.convolve(kernel2, count2)[center]
+        norm = np.convolve(kernel, count)[center]
         data_sliced = data[0::2**l][0:size]
         norm_sliced = norm[0::2**l][0:size]
         n_sliced = data_sliced.shape[-1]
-- 
2.43.0


From bc77527fb2908120a3179880851811a3d652fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 25/56] fix: shift_data() kept the misalignment phase and
 removed the phase of the correlation

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index d46edde..d6d04c3 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -790,7 +790,7 @@ def shift_data(data):
     pos_phase = np.arctan2(pos.imag, pos.real)
     neg_phase = np.arctan2(neg.imag, neg.real)
     
-    phase = (pos_phase - neg_phase)/2.
+    phase = (pos_phase + neg_phase)/2.
     exp_phase = np.exp(1j*phase)
 
     out[...,1:n] = np.abs(pos) * exp_phase
-- 
2.43.0


From 43d5cd217f84db378321d49601833149a39a155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 26/56] fix: k_select() of masked rfft2 data averaged k over
 wavevectors that were not computed

---
 cddm/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index eacb968..e8432d5 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,7 +309,6 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
     conj_mask = as_rfft2_conj(mask)
     mask = as_rfft2_mask(mask)
     
@@ -317,6 +316,8 @@ def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
         mask = mask & computed_mask
         conj_mask = conj_mask & computed_mask
         
+    #k values of the data that is actually averaged
+    ks = as_rfft2_data(kmap)[mask]
     
     if masked_data == True:
         mask = mask[computed_mask]
-- 
2.43.0


From 86766670bb86eb11da92c825026b1210cc32b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 27/56] fix: enable_prints(level) returns the previous
 verbosity level

---
 cddm/print_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 9dbb7f3..3a16b1e 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -50,7 +50,7 @@ def disable_prints():
 def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else value
+    value = cddm.conf.CDDMConfig.verbose
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From aedd334fc1ee261e9d93515aa6c2d952d4be101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 28/56] fix: verbosity level is restored when a computation
 fails while messages are disabled

---
 cddm/multitau.py    |  4 +++-
 cddm/norm.py        |  3 ++-
 cddm/print_tools.py | 15 ++++++++++++++-
 cddm/viewer.py      |  4 +++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index c5be8b9..3137d76 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -32,7 +32,7 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
 import numpy as np
 
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE
-from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints, restore_prints
 from cddm.print_tools import print1, print2
 
 from cddm._core_nb import convolve, _calc_stats_vec,  _abs2
@@ -156,6 +156,7 @@ def _determine_lengths(length, n, period, nlevel):
     assert nlevel >= 0
     return n_fast, n_slow, nlevel
 
+@restore_prints
 def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, level_size = 2**4, 
                          binning = None,  nlevel = None, norm = None, method = None, align = False, thread_divisor = None, mask = None, complex = False):
     """Implements multiple tau algorithm for cross(auto)-correlation(difference) calculation.
@@ -1668,6 +1669,7 @@ def t_multilevel(shape, period = 1):
         x *= 2
     return out
         
+@restore_prints
 def normalize_multi(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None):
     """A multitau version of :func:`.core.normalize`.
diff --git a/cddm/norm.py b/cddm/norm.py
index d6d04c3..1368627 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE
-from cddm.print_tools import print1,print2, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, enable_prints, disable_prints, restore_prints
 
 from cddm._core_nb import normalize_struct_compensated, normalize_corr_compensated,\
     normalize_corr_compensated_subtracted,\
@@ -494,6 +494,7 @@ def _inspect_scale(scale):
     except:
         raise ValueError("Invalid scale")
         
+@restore_prints
 def normalize(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None, weight = None, ret_weight = False, out = None):
     """Normalizes correlation (difference) data. Data must be data as returned
diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 3a16b1e..1c57f52 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -6,6 +6,7 @@ verbosity levels 1 and 2 enable printing, 0 disables printing messages.
 from __future__ import absolute_import, print_function, division
 
 import time
+from functools import wraps
 import cddm.conf
 
 def print1(*args, **kwargs):
@@ -53,4 +54,16 @@ def enable_prints(level = None):
     value = cddm.conf.CDDMConfig.verbose
     cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
-                                        
\ No newline at end of file
+
+def restore_prints(func):
+    """Decorator that restores verbosity level if function raises an exception
+    while message printing is disabled."""
+    @wraps(func)
+    def new_func(*args, **kwargs):
+        level = cddm.conf.CDDMConfig.verbose
+        try:
+            return func(*args, **kwargs)
+        except:
+            cddm.conf.CDDMConfig.verbose = level
+            raise
+    return new_func
diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..1db6554 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -7,7 +7,7 @@ from matplotlib.widgets import Slider, Button, RadioButtons, CheckButtons, AxesW
 from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_mask, as_rfft2_conj
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
-from cddm.print_tools import disable_prints, enable_prints
+from cddm.print_tools import disable_prints, enable_prints, restore_prints
 from cddm.decorators import doc_inherit, skip_runtime_error
 
 
@@ -363,6 +363,7 @@ class DataArrayViewer(object):
         return self._get_avg_data()
             
 
+    @restore_prints
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
@@ -764,6 +765,7 @@ class DataViewer(object):
         
         return self.mask.any()
         
+    @restore_prints
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
-- 
2.43.0


From 031271e321d7571d0af10f672d0cda4e4398a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 29/56] fix: import failed when the configured number of numba
 threads is not available

---
 cddm/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..c386ee4 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -353,7 +353,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From b9ea20adbd01ce73823c8fa3ddb01246976c8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 30/56] fix: streaming multitau with complex128 frames failed
 in single precision

---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 3137d76..b0d6351 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -835,8 +835,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             axis = -2 if OPTIMIZE_LAYOUT else 0
             
              
-        x1 = x1.reshape(shape) 
-        x2 = x2.reshape(shape) if cross else None
+        x1 = np.asarray(x1, CDTYPE).reshape(shape) 
+        x2 = np.asarray(x2, CDTYPE).reshape(shape) if cross else None
         
             
         if i < half_chunk_size and auto_background == True:
-- 
2.43.0


From 87b1a8c370acdee3f6506d019738ec5215fb2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 31/56] fix: normalize() with double precision variance or
 weight failed in single precision

---
 cddm/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 1368627..ba1fd20 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -446,7 +446,7 @@ def _corr2diff(data, variance, mask):
 
 def _variance2offset(variance, mask):
     #offset for norm == 2 type of normalization
-    return scale_factor(variance, mask)[..., None]
+    return np.asarray(scale_factor(variance, mask), FDTYPE)[..., None]
     
 
 def _inspect_background(background, norm, mask):
@@ -595,7 +595,8 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
             for i in range(2):
                 weighted_data = weighted_sum(comp_data, base_data, weight)
                 weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-        
+        else:
+            weight = np.asarray(weight, CDTYPE if np.iscomplexobj(weight) else FDTYPE)
     
         # _multilevel = True if len(data[1].shape) > 1 else False
         
-- 
2.43.0


From d00f04e26f8b4ef17ed31a67fe24aa5635ad8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 32/56] fix: sums of squares and means in single precision (fft
 failed, imaginary part was dropped)

---
 cddm/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 596407d..eee4afa 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -86,9 +86,9 @@ def _inspect_cross_arguments(f1,f2,t1,t2,axis,n, aout, dtype = CDTYPE, aout_full
     f2 = np.asarray(f2, dtype)
     
     if f1.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f1 = np.asarray(f1, FDTYPE)
+        f1 = np.asarray(f1, CDTYPE if np.iscomplexobj(f1) else FDTYPE)
     if f2.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f2 = np.asarray(f2, FDTYPE)
+        f2 = np.asarray(f2, CDTYPE if np.iscomplexobj(f2) else FDTYPE)
     
     ndim = f1.ndim
 
@@ -147,7 +147,7 @@ def _inspect_auto_arguments(f,t,axis,n,aout, dtype = CDTYPE):
                 
     f = np.asarray(f, dtype)
     if f.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f = np.asarray(f, FDTYPE)
+        f = np.asarray(f, CDTYPE if np.iscomplexobj(f) else FDTYPE)
         
     ndim = f.ndim
 
@@ -868,7 +868,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         length = _determine_fft_length(length, out, complex)
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
         
         if complex == False:  
             return _cross_sum_fft(f,y,t,length,out, out)
@@ -965,7 +965,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         length = _determine_fft_length(length, out)
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
 
         out0 = _cross_sum_fft(f,y,t,length,out0, out0)
 
-- 
2.43.0


From 3f07c1ec7d0bc8e3acd4b914502888339ce4aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 33/56] fix: importing cddm.fft discarded the configured number
 of fft threads

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index c63e898..02e79fb 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -21,7 +21,7 @@ if PYFFTW_INSTALLED :
    import pyfftw.interfaces as fftw
    import pyfftw
    fftw.cache.enable()
-   pyfftw.config.NUM_THREADS = detect_number_of_cores()
+   pyfftw.config.NUM_THREADS = CDDMConfig["fft_threads"]
 
 def _fft(a, overwrite_x = False):
     libname = CDDMConfig["fftlib"]
-- 
2.43.0


From fb66eadcb8456de24f6717af07905933c0d6defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 34/56] fix: brownian_walk() did not scale callable velocity
 with the time step

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index be0f176..d844767 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From 7ab4a5c817faaf3d49e2d65d37930df585816849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 35/56] fix: brownian_walk() with callable delta failed, or
 mixed particles with coordinates

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index d844767..4612c05 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -143,6 +143,9 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
             _scale = np.asarray(_scale, FDTYPE)
+            if _scale.ndim == 1:
+                #one value for each of the particles
+                _scale = _scale[:,None]
             
         x = make_step(x,_scale, _velocity) 
         x = mirror(x,x1,x2)
-- 
2.43.0


From 8b232cab3b8499cde8f26aa4e672fe2ddb14c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 36/56] fix: particles_video() lost frames when one camera is
 ahead of the other by more than a frame

---
 cddm/sim.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 4612c05..529571c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -234,8 +234,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames waiting for the frame of the other camera
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -265,20 +266,18 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From ccc68a2559472704e3c03bbd572e429cbe71981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 37/56] fix: random_time_count() at zero delay is the number of
 frames

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 529571c..bc4dab7 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -347,7 +347,7 @@ def random_time_count(nframes, n = 32):
     """Returns estimated count for single-camera random triggering scheme"""
     count = (np.arange(nframes*n+1)[::-1])/n/n
     count[0:n] = np.arange(n*1.)/(n) * count[0:n]
-    count[0] = nframes * n
+    count[0] = nframes
     return count
  
 def create_random_times1(nframes,n = 32):
-- 
2.43.0


From e16975f95c79c6c9dc6dcd36f69f54f887116da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 38/56] fix: intensity that does not fit uint16 was accepted,
 and one intensity per particle was refused

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index bc4dab7..ae2aabf 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -24,7 +24,7 @@ def _inspect_frame_dtype(dtype, intensity):
     dtype = np.dtype(dtype)
     if dtype not in ("uint8", "uint16"):
         raise ValueError("Unsupported dtype")
-    if intensity > 255 and dtype != "uint16" or intensity < 0:
+    if np.any(np.asarray(intensity) > np.iinfo(dtype).max) or np.any(np.asarray(intensity) < 0):
         raise ValueError("Invalid intensity for dtype {}".format(dtype))
     return dtype
 
-- 
2.43.0


From 18a696dcea1b68615131bc320a79510627820aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 39/56] fix: adc() with 8bit depth returned uint16 image

---
 cddm/_sim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..fed145a 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -83,7 +83,7 @@ def shot_noise_poisson(photon_noise, readout_noise):
         out += np.random.poisson(readout_noise)
     return out
 
-@nb.vectorize([U16(F,F,F, U16), U8(F,F,F, U8)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
+@nb.vectorize([U8(F,F,F, U8), U16(F,F,F, U16)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
 def adc_clean(frame, saturation, black_level, maxv):
     out = (frame - black_level)/saturation * maxv
     if out < 0:
-- 
2.43.0


From 86a0cc6f9d1993636f08fd643bf02f4e1678ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 40/56] fix: draw_psf() lost intensity of overlapping particles
 when compiled for parallel target

---
 cddm/_sim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index fed145a..e4c15f8 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -123,7 +123,7 @@ def adc_16bit(frame, scale, black_level):
     out = _adc_scale(frame, scale, black_level)
     return int(out*65536) if out < 1. else 65535
 
-@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, parallel = NUMBA_PARALLEL, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
+@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
 def draw_psf(im, points, intensity, sigma):
     """Draws psf to image from a given points array"""
     assert points.shape[1] == 2
-- 
2.43.0


From 97144078e94f1aa549df9f1794f6b7c8550c0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 41/56] fix: mode selector of data viewers failed with
 matplotlib 3.7 or newer

---
 cddm/viewer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 1db6554..82b2b6f 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -206,6 +206,14 @@ class CustomRadioButtons(RadioButtons):
             The orientation of the buttons: 'vertical' (default), or 'horizontal'.
         Further parameters are passed on to `Legend`.
         """
+        if hasattr(RadioButtons, "set_radio_props"):
+            # matplotlib 3.7 or newer, buttons are no longer legend handles.
+            try:
+                super().__init__(ax, labels, active = active, activecolor = activecolor, layout = orientation)
+            except TypeError:
+                super().__init__(ax, labels, active = active, activecolor = activecolor)
+            return
+        
         AxesWidget.__init__(self, ax)
         self.activecolor = activecolor
         axcolor = ax.get_facecolor()
@@ -245,6 +253,8 @@ class CustomRadioButtons(RadioButtons):
 
 
     def _clicked(self, event):
+        if hasattr(RadioButtons, "set_radio_props"):
+            return super()._clicked(event)
         if (self.ignore(event) or event.mouseevent.button != 1 or
             event.mouseevent.inaxes != self.ax):
             return
-- 
2.43.0


From 146cea7caf0d54390af9b3f1da56bbf8d0b82743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 42/56] fix: FF button of VideoViewer never advanced in videos
 shorter than 100 frames

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 82b2b6f..c0570dc 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -106,7 +106,7 @@ class VideoViewer(object):
         self.bfast =  Button(self.axfast, 'FF') 
         
         self.playing = False
-        self.step_fast = count/100
+        self.step_fast = max(count/100, 1)
         self.step = 1
         
         def _play():
-- 
2.43.0


From 87e7a254590d7143a363a851fd133cb8c6f4a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 43/56] fix: array viewers failed when selected axes were not
 the leading ones

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index c0570dc..9b36327 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -323,7 +323,7 @@ class DataArrayViewer(object):
         self.selectorindex.on_clicked(update_mode)
 
     def set_indices(self,*vals):
-        indices = [slice(None)] * len(self.axes)
+        indices = [slice(None)] * (max(self.axes, default = -1) + 1)
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
-- 
2.43.0


From cff756f8544e3f3bf4b90565911a540bbbb9cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 44/56] fix: get_k() of data viewers failed with masked data

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 9b36327..5a84745 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -728,7 +728,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return self.kmap[self.graph_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
-- 
2.43.0


From a2a2065f1ecef847c192f0db2e73b0afdff0b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 45/56] fix: moving a slider of data viewers undid set_mask()
 or set_indices()

---
 cddm/viewer.py | 54 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 5a84745..3e73589 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -8,6 +8,7 @@ from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
 from cddm.print_tools import disable_prints, enable_prints, restore_prints
+from functools import partial
 from cddm.decorators import doc_inherit, skip_runtime_error
 
 
@@ -270,6 +271,14 @@ def _inspect_data_repr_mode(mode):
         raise ValueError("Invalid data representation mode. Must be one of {}".format(AVAILABLE_DATA_REPR_MODES))
     return mode  
             
+def _set_silent(slider, value):
+    """Sets slider value without calling the functions connected to the slider."""
+    eventson, slider.eventson = slider.eventson, False
+    try:
+        slider.set_val(value)
+    finally:
+        slider.eventson = eventson
+            
 def data_repr(data, mode = "real"):
     mode = _inspect_data_repr_mode(mode)
     if mode == "real":
@@ -306,19 +315,22 @@ class DataArrayViewer(object):
         self.slider_axes = {}
         self.sliders = {}
         
-        def update_slider(val):
-            self.set_indices(*tuple((int(self.sliders[ax].val) for ax in self.axes)))
+        def update_slider(i, val):
+            #change only the index that was moved, others may have been set with set_indices
+            vals = [self.indices[ax] for ax in self.axes]
+            vals[i] = int(val)
+            self.set_indices(*vals)
             self.plot()      
         
         for i,ax in enumerate(self.axes):
             self.slider_axes[ax] = plt.axes([0.1, 0.05 + i*0.15/len(self.axes), 0.8, 0.03])
             size = self.shape[ax]-1
-            self.sliders[ax] = Slider(self.slider_axes[ax], "axis {}".format(ax) ,-size, size,valinit = self._default_indices[i], valfmt='%i')
-            self.sliders[ax].on_changed(update_slider)
+            self.sliders[ax] = Slider(self.slider_axes[ax], "axis {}".format(ax) ,-size, size,valinit = self.indices[ax], valfmt='%i')
+            self.sliders[ax].on_changed(partial(update_slider, i))
 
         def update_mode(val):
             self.mode = val
-            update_slider(val)
+            self.plot()
 
         self.selectorindex.on_clicked(update_mode)
 
@@ -327,6 +339,10 @@ class DataArrayViewer(object):
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
+        
+        if self.fig is not None:
+            for ax in self.axes:
+                _set_silent(self.sliders[ax], self.indices[ax])
               
     def set_data(self, data, t = None):
         """Sets correlation data.
@@ -668,18 +684,26 @@ class DataViewer(object):
         self.sectorindex = Slider(self.sectorax, "sector",0,180,valinit = self.sector, valfmt='%.2f') 
         
 
-        def update(val):
-            self.set_mask(int(round(self.kindex.val)),self.angleindex.val,self.sectorindex.val, self.kstep)
+        #each slider changes only its own parameter, others may have been set with set_mask
+        def update_k(val):
+            self.set_mask(int(round(val)), self.angle, self.sector, self.kstep)
+            self.plot()        
+
+        def update_angle(val):
+            self.set_mask(self.k, val, self.sector, self.kstep)
+            self.plot()        
+
+        def update_sector(val):
+            self.set_mask(self.k, self.angle, val, self.kstep)
             self.plot()        
         
         def update_mode(val):
             self.mode = val
-            update(val)
-
+            self.plot()
             
-        self.kindex.on_changed(update)
-        self.angleindex.on_changed(update)
-        self.sectorindex.on_changed(update)
+        self.kindex.on_changed(update_k)
+        self.angleindex.on_changed(update_angle)
+        self.sectorindex.on_changed(update_sector)
         self.selectorindex.on_clicked(update_mode)
               
     def set_data(self, data, t = None):
@@ -773,6 +797,11 @@ class DataViewer(object):
                 self.conj_mask = self.conj_mask[self.computed_mask]
                 self.mask = self.mask[from_rfft2_data(self.computed_mask, self.shape)]
         
+        if self.fig is not None:
+            _set_silent(self.kindex, self.k)
+            _set_silent(self.angleindex, self.angle)
+            _set_silent(self.sectorindex, self.sector)
+        
         return self.mask.any()
         
     @restore_prints
@@ -887,7 +916,6 @@ class CorrViewer(DataViewer):
                 self.set_norm(norm)
             except ValueError:
                 self.check.set_active(index)
-            self.set_mask(int(round(self.kindex.val)),self.angleindex.val,self.sectorindex.val, self.kstep)
             self.plot()
 
                 
-- 
2.43.0


From fb3a7d97261762d9375146fb4c828d6660dcb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 46/56] fix: check boxes of data viewers did not follow
 set_norm(), which the next click undid

---
 cddm/viewer.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 3e73589..2ec672c 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -279,6 +279,20 @@ def _set_silent(slider, value):
     finally:
         slider.eventson = eventson
             
+def _norm_status(norm):
+    """Returns status of the norm check buttons."""
+    return [bool(norm & NORM_STRUCTURED),bool(norm & NORM_SUBTRACTED), (norm & NORM_WEIGHTED) == NORM_WEIGHTED, (norm & NORM_COMPENSATED) == NORM_COMPENSATED]
+
+def _set_check_silent(check, norm):
+    """Makes check buttons show the norm without calling the connected functions."""
+    eventson, check.eventson = check.eventson, False
+    try:
+        for i, (status, active) in enumerate(zip(check.get_status(), _norm_status(norm))):
+            if status != active:
+                check.set_active(i)
+    finally:
+        check.eventson = eventson
+            
 def data_repr(data, mode = "real"):
     mode = _inspect_data_repr_mode(mode)
     if mode == "real":
@@ -445,6 +459,7 @@ class CorrArrayViewer(DataArrayViewer):
     """
     background = None
     variance = None
+    check = None
     
     def __init__(self, semilogx = True,  axes = (0,), size = None, norm = None, scale = False, fold = None):
         self.axes = axes
@@ -466,6 +481,8 @@ class CorrArrayViewer(DataArrayViewer):
         """Sets norm parameter"""
         method = _method_from_data(self.data)
         self.norm = _default_norm_from_data(self.data,method,value)     
+        if self.check is not None:
+            _set_check_silent(self.check, self.norm)
         
     def _init_fig(self):
         super()._init_fig()
@@ -475,14 +492,13 @@ class CorrArrayViewer(DataArrayViewer):
         #self.rax = plt.axes([0.48, 0.55, 0.15, 0.3])
         self.cax = plt.axes([0.44, 0.72, 0.2, 0.15])
         
-        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED == NORM_WEIGHTED)) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
+        self.active = _norm_status(self.norm)
         
         self.check = CheckButtons(self.cax, ("structured", "subtracted", "weighted", "compensated"), self.active)
         
         #self.radio = RadioButtons(self.rax,("norm 0","norm 1","norm 2","norm 3","norm 4", "norm 5", "norm 6", "norm 7"), active = self.norm, activecolor = "gray")
  
         def update(label):
-            index = ["structured", "subtracted", "weighted", "compensated"].index(label)
             status = self.check.get_status()
 
             norm = NORM_STRUCTURED if status[0] == True else NORM_STANDARD    
@@ -496,7 +512,7 @@ class CorrArrayViewer(DataArrayViewer):
             try:
                 self.set_norm(norm)
             except ValueError:
-                self.check.set_active(index)
+                _set_check_silent(self.check, self.norm)
             self.plot()
 
                 
@@ -565,6 +581,8 @@ class MultitauArrayViewer(CorrArrayViewer):
         """Sets norm parameter"""
         method = _method_from_data(self.data[0])
         self.norm = _default_norm_from_data(self.data[0],method,value)  
+        if self.check is not None:
+            _set_check_silent(self.check, self.norm)
         
     def set_data(self, data, background = None, variance = None):
         """Sets correlation data.
@@ -869,6 +887,7 @@ class CorrViewer(DataViewer):
     """
     background = None
     variance = None
+    check = None
     
     def __init__(self, semilogx = True,  shape = None, size = None, norm = None, scale = False, mask = None, fold = None):
         self.norm  = norm
@@ -885,6 +904,8 @@ class CorrViewer(DataViewer):
         """Sets norm parameter"""
         method = _method_from_data(self.data)
         self.norm = _default_norm_from_data(self.data,method,value)     
+        if self.check is not None:
+            _set_check_silent(self.check, self.norm)
         
     def _init_fig(self):
         super()._init_fig()
@@ -894,14 +915,13 @@ class CorrViewer(DataViewer):
         #self.rax = plt.axes([0.48, 0.55, 0.15, 0.3])
         self.cax = plt.axes([0.44, 0.72, 0.2, 0.15])
         
-        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED == NORM_WEIGHTED)) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
+        self.active = _norm_status(self.norm)
         
         self.check = CheckButtons(self.cax, ("structured", "subtracted", "weighted", "compensated"), self.active)
         
         #self.radio = RadioButtons(self.rax,("norm 0","norm 1","norm 2","norm 3","norm 4", "norm 5", "norm 6", "norm 7"), active = self.norm, activecolor = "gray")
  
         def update(label):
-            index = ["structured", "subtracted", "weighted", "compensated"].index(label)
             status = self.check.get_status()
 
             norm = NORM_STRUCTURED if status[0] == True else NORM_STANDARD    
@@ -915,7 +935,7 @@ class CorrViewer(DataViewer):
             try:
                 self.set_norm(norm)
             except ValueError:
-                self.check.set_active(index)
+                _set_check_silent(self.check, self.norm)
             self.plot()
 
                 
@@ -1013,6 +1033,8 @@ class MultitauViewer(CorrViewer):
         """Sets norm parameter"""
         method = _method_from_data(self.data[0])
         self.norm = _default_norm_from_data(self.data[0],method,value)  
+        if self.check is not None:
+            _set_check_silent(self.check, self.norm)
         
     #@doc_inherit
     def set_data(self, data, background = None, variance = None):
-- 
2.43.0


From 53465f899ce254e80c50e2f96db86baf4ff0bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 47/56] fix: data viewers folded data also when told not to
 (fold = False)

---
 cddm/viewer.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 2ec672c..07518a4 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -542,9 +542,12 @@ class CorrArrayViewer(DataArrayViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            fold = self.fold
+            if fold is None:
+                fold = isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -607,9 +610,12 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            fold = self.fold
+            if fold is None:
+                fold = isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
@@ -977,9 +983,12 @@ class CorrViewer(DataViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            fold = self.fold
+            if fold is None:
+                fold = isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -1063,9 +1072,12 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            fold = self.fold
+            if fold is None:
+                fold = isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
-- 
2.43.0


From a5be995c3b9aa6d27d49070f2f55393d8eb4e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 48/56] fix: streaming correlation with n or level_size < 1
 never ended

---
 cddm/multitau.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index b0d6351..02d54d0 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -523,6 +523,8 @@ def _get_frames(d, cross = False, mask = None):
     return x1, x2
 
 def _default_chunk_size(chunk_size, count, level_size):
+    if level_size < 1:
+        raise ValueError("'level_size' must be greater than 0")
     if level_size > count:
         raise ValueError("'level_size' parameter is larger than 'count'")
     if chunk_size is None:
-- 
2.43.0


From 9a6ef8f08bb193c4551700912b3332c3694989ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 49/56] fix: verbosity stayed disabled when a streaming
 correlation failed

---
 cddm/core.py     | 4 +++-
 cddm/multitau.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index eee4afa..f478482 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -38,7 +38,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE,I64DTYPE
-from cddm.print_tools import print1,print2, print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, print_frame_rate, enable_prints, disable_prints, restore_prints
 import time
 from functools import reduce 
 from cddm.fft import _fft
@@ -1314,6 +1314,7 @@ def ccorr(f1,f2,t1 = None, t2 = None,  n = None,
         return cor, count, sq, ds1, ds2
     
 
+@restore_prints
 def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
@@ -1410,6 +1411,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
+@restore_prints
 def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
diff --git a/cddm/multitau.py b/cddm/multitau.py
index 02d54d0..84668c1 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1102,6 +1102,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     else:
         yield tuple((reshape_output(o, original_shape,mask) for o in out))
 
+@restore_prints
 def iccorr_multi(data, t1 = None, t2 = None, level_size = 2**4, norm = None, method = "corr", count = None, period = 1,
                  binning = None, nlevel = None, chunk_size = None, thread_divisor = None,  
                  auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
@@ -1189,6 +1190,7 @@ def iccorr_multi(data, t1 = None, t2 = None, level_size = 2**4, norm = None, met
     return data
 
 
+@restore_prints
 def iacorr_multi(data, t = None, level_size = 2**4, norm = None, method = "corr", count = None, period = 1,
                  binning = None, nlevel = None, chunk_size = None, thread_divisor = None,  
                  auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
-- 
2.43.0


From 51c4e8966a68c5a9f79399b1c15d70747637bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 50/56] fix: in-memory multiple-tau failed with a mask and a
 negative axis of the first dimension

---
 cddm/multitau.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 84668c1..ae800bb 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -178,11 +178,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     else:
         f1,t1,axis,level_size = _inspect_auto_arguments(f1,t1,axis,level_size, None)
     
+    ndim = f1.ndim
+    
     #reshape input data for faster threaded execution.
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
-    axis = min(axis % (len(kshape) + 1), f1.ndim - 1)
+    axis = min(axis % ndim, f1.ndim - 1)
 
     new_axis = -2 if f1.ndim > 1 else -1    
 
-- 
2.43.0


From f9fd8e0991d58e69fd07e102406ba5536fa1a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 51/56] fix: sectors beyond the range of angles had their upper
 edge in and their lower edge out

---
 cddm/map.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index e8432d5..90d0a22 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -83,11 +83,9 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         high, low = low%m, high
         negate = True
         
+    fmask = (anglemap < high) & (anglemap >= low)
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
         fmask = np.logical_not(fmask)
-    else:
-        fmask = (anglemap < high) & (anglemap >= low)
     
     for i,k in enumerate(ks):
         kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
@@ -146,11 +144,9 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         high, low = low%m, high
         negate = True
         
+    fmask = (anglemap < high) & (anglemap >= low)
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
         fmask = np.logical_not(fmask)
-    else:
-        fmask = (anglemap < high) & (anglemap >= low)
     
     for i,k in enumerate(ks):
         kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
-- 
2.43.0


From a296cbbc9bf40b2e47136bb88eb331ae67d78fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 52/56] fix: live display with pyqtgraph 0.13 and later failed
 (QtGui has no QApplication)

---
 cddm/video.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 22699f8..016929c 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -29,7 +29,6 @@ if CV2_INSTALLED:
     
 if PYQTGRAPH_INSTALLED:
     import pyqtgraph as pg
-    from pyqtgraph.Qt import QtGui
     pg.setConfigOptions(imageAxisOrder = "row-major")
 
 def fromarrays(arrays):
@@ -413,10 +412,7 @@ def pause(i = 1):
     elif CDDMConfig.showlib == "matplotlib":
         plt.pause(i/1000.)
     else: 
-        app = QtGui.QApplication.instance()
-        if app is None:
-            app = QtGui.QApplication([])
-        app.processEvents()
+        pg.mkQApp().processEvents()
         
 #placehold for imshow figures        
 _FIGURES = {}
-- 
2.43.0


From 475be3df11c667c129faf29e396fcf8a9b456da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 53/56] fix: nothing is printed besides the error when a video
 is too short

---
 cddm/multitau.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ae800bb..138359b 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1061,7 +1061,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                 yield tuple((reshape_output(o, original_shape,mask) for o in out))
     
     if i < nframes-1:
-        print (i)
         raise ValueError("Data iterator too short.") 
          
     verbosity = disable_prints()
-- 
2.43.0


From befe2f32902c68e70ca6578103fede594c354397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:41 +0000
Subject: [PATCH 54/56] fix: a video shorter than count is refused, not filled
 up with undefined data

---
 cddm/video.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 016929c..95a49c2 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -84,9 +84,13 @@ def asarrays(video, count = None):
     frames = next(video)
     out = tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    n = 1
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+        n = j+2
+    if n < count:
+        raise ValueError("Video is shorter than `count`.")
         
     print_progress(count, count)
     print_frame_rate(count,t0)
@@ -137,9 +141,13 @@ def asmemmaps(basename, video, count = None):
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    n = 1
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+        n = j+2
+    if n < count:
+        raise ValueError("Video is shorter than `count`.")
     
     print_progress(count, count)   
     return out
-- 
2.43.0


From 5854aec479e4d7ec8cac4ba9bc8800a1019dfd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 55/56] fix: averages of integer data were truncated (or failed
 on missing values)

---
 cddm/multitau.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 138359b..76cbd2d 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1450,6 +1450,9 @@ def multilevel(data, level_size = 16, binning = BINNING_MEAN, fold = None):
     size = int(level_size)
     if size < 2:
         raise ValueError("level_size must be greater than 1")
+    if data.dtype.kind in "biu":
+        #mean values (and nans) can not be stored as integers
+        data = data.astype(FDTYPE)
     #determine multitau level (number of decades)
     level = 0
     
-- 
2.43.0


From 5a0f805ddd6f0e70df18363fb6c1b76899228f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:07 +0000
Subject: [PATCH 56/56] fix: noise difference and scale of integer variances
 overflowed

---
 cddm/norm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index ba1fd20..6d39b45 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -158,7 +158,7 @@ def scale_factor(variance, mask = None):
     else:
         try:
             v1, v2 = variance
-            scale = (np.asarray(v1) + np.asarray(v2))/2
+            scale = (np.asarray(v1, FDTYPE) + np.asarray(v2, FDTYPE))/2
         except:
             scale = np.asarray(variance)  
     if mask is None:
@@ -255,8 +255,8 @@ def noise_delta(variance, mask = None, scale = True):
         if isinstance(variance, np.ndarray):
             raise ValueError("Single data")
         v1, v2 = variance
-        delta = (np.asarray(v2) - np.asarray(v1))
-        scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
+        delta = (np.asarray(v2, FDTYPE) - np.asarray(v1, FDTYPE))
+        scale = (np.asarray(v1, FDTYPE) + np.asarray(v2, FDTYPE)) if scale == True else 2.
         delta = delta / scale
     except:
         #single data has delta = 0.
-- 
2.43.0

