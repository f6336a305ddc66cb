From 041f81c79e999ab0ce8d5793f4a74bd644ef509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 01/67] fix: do not advance iteration count when solve is
 called with MaxMainIter 0

---
 sporco/admm/admm.py         |  5 +++--
 sporco/admm/parcbpdn.py     |  5 +++--
 sporco/dictlrn/dictlrn.py   |  5 +++--
 sporco/dictlrn/prlcnscdl.py | 10 ++++++----
 sporco/pgm/pgm.py           |  5 +++--
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..0a40b3f 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -377,8 +377,9 @@ class ADMM(common.IterativeSolver):
                     break
 
 
-        # Increment iteration count
-        self.k += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..e93ad33 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -818,8 +818,9 @@ class ParConvBPDN(GenericConvBPDN):
                 if r < epri and s < edua:
                     break
 
-        # Increment iteration count
-        self.k += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 6f27a3a..04113b5 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -361,8 +361,9 @@ class DictLearn(with_metaclass(_DictLearn_Meta, object)):
                     break
 
 
-        # Increment iteration count
-        self.j += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..424593b 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -584,8 +584,9 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.pool.close()
             self.pool.join()
 
-        # Increment iteration count
-        self.j += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
@@ -1150,8 +1151,9 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.pool.close()
             self.pool.join()
 
-        # Increment iteration count
-        self.j += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..1cad3d3 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -369,8 +369,9 @@ class PGM(IterativeSolver):
                 if frcxd < adapt_tol:
                     break
 
-        # Increment iteration count
-        self.k += 1
+        # Increment iteration count (unless no iterations were requested)
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl',
-- 
2.43.0


From b44e8ac5d7ee55f1d90eafa51fda8a62aa2cd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:37 +0000
Subject: [PATCH 02/67] fix: revert spatial domain iterate as well as its DFT
 in monotone PGMDFT

---
 sporco/pgm/pgm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 1cad3d3..10ad341 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -806,6 +806,7 @@ class PGMDFT(PGM):
             if self.objfn_prev[0] < self.objfn[0]:
                 # If increment on objective function
                 # revert to previous iterate
+                self.X[:] = self.Xprv
                 self.Xf = self.Xfprv.copy()
                 self.objfn = self.objfn_prev
 
@@ -842,6 +843,7 @@ class PGMDFT(PGM):
             self.Yfprv = self.Yf.copy()
 
         if self.opt['Monotone']:
+            self.Xprv = self.X.copy()
             if self.k == 0:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
-- 
2.43.0


From 4b706c8ebe0ace17aca76b0c0e04d1626641a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:58 +0000
Subject: [PATCH 03/67] fix: record objective of first iterate, not of initial
 point, in monotone PGM

---
 sporco/pgm/pgm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 10ad341..227fd4a 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -419,6 +419,8 @@ class PGM(IterativeSolver):
                 # revert to previous iterate
                 self.X = self.Xprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return grad
 
@@ -809,6 +811,8 @@ class PGMDFT(PGM):
                 self.X[:] = self.Xprv
                 self.Xf = self.Xfprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return gradf
 
-- 
2.43.0


From 2470b782930bda6b36d35bcffbd5c01a0a667c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:09 +0000
Subject: [PATCH 04/67] fix: ndto2d with all axes selected

---
 sporco/prox/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_util.py b/sporco/prox/_util.py
index 16cacf4..0d7f9a9 100644
--- a/sporco/prox/_util.py
+++ b/sporco/prox/_util.py
@@ -60,7 +60,7 @@ def ndto2d(x, axis=-1):
     # Reshape into a 2D array with the axes specified by the axis
     # parameter flattened into an index along rows, and the remaining
     # axes flattened into an index along the columns
-    xtr = xt.reshape((np.prod(xts[0:len(caxis)]), -1))
+    xtr = xt.reshape((np.prod(xts[0:len(caxis)], dtype=int), -1))
     # Return reshaped array and a tuple containing the information
     # necessary to undo the entire operation
     return xtr, (xts, prm)
-- 
2.43.0


From 565e113edddeb3497336d4e04ee98a7a92746a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:09 +0000
Subject: [PATCH 05/67] fix: avoid NaN in prox_l1 of zero complex values

---
 sporco/prox/_lp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..6e3ce1e 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,7 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From 7805e20d809495f7d6f144045312f7114f036058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 06/67] fix: use signed eigenvalues in
 solve_symmetric_sylvester

---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From c5f95f8b38e8ccf85787680f08898372e844f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:22 +0000
Subject: [PATCH 07/67] fix: gradient_filters with axes other than the leading
 ones

---
 sporco/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..bf9bae5 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -229,8 +229,8 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
         dtype = np.float32
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for i, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (i,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From 1bac66d47119c1b64baa81f310d4fd20d2b1b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:22 +0000
Subject: [PATCH 08/67] fix: grad and gradT with negative axis or axis of unit
 length

---
 sporco/signal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index bf9bae5..dd7d833 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -162,7 +162,7 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
-        slc = (slice(None),)*axis + (slice(-1, None),)
+        slc = (slice(None),)*(axis % x.ndim) + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
         xg[slc] = 0.0
     return xg
@@ -193,10 +193,11 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-        slc0 = (slice(None),) * axis
+        slc0 = (slice(None),) * (axis % x.ndim)
         xg = np.roll(x, 1, axis=axis) - x
-        xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-        xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
+        if x.shape[axis] > 1:
+            xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
+            xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
     return xg
 
 
-- 
2.43.0


From 4d9bd235ff86049f0b7faa8c9304d874c795606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:22 +0000
Subject: [PATCH 09/67] fix: rfl2norm2 with negative axes

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..4724fec 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -473,7 +473,7 @@ def rfl2norm2(xf, xs, axis=(0, 1)):
     """
 
     scl = 1.0 / np.prod(np.array([xs[k] for k in axis]))
-    slc0 = (slice(None),) * axis[-1]
+    slc0 = (slice(None),) * (axis[-1] % xf.ndim)
     nrm0 = np.linalg.norm(xf[slc0 + (0,)])
     idx1 = (xs[axis[-1]] + 1) // 2
     nrm1 = np.linalg.norm(xf[slc0 + (slice(1, idx1),)])
-- 
2.43.0


From 8cfd08d93585ef5e34c3b0003fee23f5f8de3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 10/67] fix: signal axis of l1 weight array when there is no
 channel axis

---
 sporco/cnvrep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..14e6755 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -535,7 +535,8 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+            W.shape[cri.dimN:] + (1,) * (2 - cri.dimK)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
@@ -544,8 +545,8 @@ def l1Wshape(W, cri):
         else:
             # Assume that the final axis in the input array is the filter
             # index
-            shpW = W.shape[0:-1] + (1,) * (2 - cri.dimC - cri.dimK) + \
-                W.shape[-1:]
+            shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+                W.shape[cri.dimN:-1] + (1,) * (1 - cri.dimK) + W.shape[-1:]
 
     return shpW
 
-- 
2.43.0


From b262786512bf53b11fc1422520d974115192f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 11/67] fix: zero mean dictionary projection for dimN other
 than 2

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 14e6755..000300f 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1009,7 +1009,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From 1b364e1040ee7232df2219ad626c44e68ed69dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:23 +0000
Subject: [PATCH 12/67] fix: NoBndryCross option with filters of unit length on
 an axis

The slice(1 - n, None) selecting the coefficients of filters crossing the
boundary selects the entire axis, not none of it, when the filter length n
is 1, so that the whole solution was forced to zero.
---
 sporco/admm/cbpdn.py    | 10 ++++++----
 sporco/admm/parcbpdn.py |  5 +++--
 sporco/pgm/cbpdn.py     |  5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..2f5e181 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -307,8 +307,9 @@ class GenericConvBPDN(admm.ADMMEqual):
             self.Y[self.Y < 0.0] = 0.0
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
-                self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                if self.D.shape[n] > 1:
+                    self.Y[(slice(None),) * n +
+                           (slice(1 - self.D.shape[n], None),)] = 0.0
 
 
 
@@ -1655,8 +1656,9 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
                 Y1[Y1 < 0.0] = 0.0
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
-                    Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                    if self.D.shape[n] > 1:
+                        Y1[(slice(None),)*n +
+                           (slice(1-self.D.shape[n], None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index e93ad33..f49670e 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -228,8 +228,9 @@ def par_y1step(i):
         Y1[Y1 < 0.0] = 0.0
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
-            Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+            if mp_Dshp[n] > 1:
+                Y1[(slice(None),) + (slice(None),)*n +
+                   (slice(1-mp_Dshp[n], None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..221aa75 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -293,8 +293,9 @@ class ConvBPDN(pgm.PGMDFT):
             U[U < 0.0] = 0.0
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
-                U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                if self.D.shape[n] > 1:
+                    U[(slice(None),) * n +
+                      (slice(1 - self.D.shape[n], None),)] = 0.0
         return U
 
 
-- 
2.43.0


From 1a06d53463ea6ce3bef812f41ab4332e38657a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:23 +0000
Subject: [PATCH 13/67] fix: option Y0 of ConvBPDN and classes derived from it

Method uinit requires attributes lmbda and rho, but they were set after
the parent class constructor that calls uinit, so that setting option Y0
resulted in an AttributeError. In addition, the cached component used with
option HighMemSolve was computed from the value of rho before it was reset
to its default.
---
 sporco/admm/cbpdn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 2f5e181..b7fe0b0 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -567,14 +567,16 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+        # Infer problem dimensions and set relevant attributes of self
+        if not hasattr(self, 'cri'):
+            self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
 
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -597,6 +599,10 @@ class ConvBPDN(GenericConvBPDN):
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
+        # Call parent class __init__ (the attributes set above are
+        # required there for initialising the working variable U)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
 
 
     def uinit(self, ushape):
-- 
2.43.0


From 3777a25d564759f462b1e58a901e0ad5d30a2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:49 +0000
Subject: [PATCH 14/67] fix: option Y0 of ConvBPDNMaskDcpl, ConvMinL1InL2Ball,
 and MinL1InL2Ball

The uinit methods of these classes require attributes that were only set
after the parent class constructor that calls uinit, resulting in an
AttributeError when option Y0 is set. In ConvMinL1InL2Ball uinit also
called a function removed from sporco.linalg, with the roles of the
two blocks interchanged.
---
 sporco/admm/bpdn.py  |  9 +++++++--
 sporco/admm/cbpdn.py | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..9ba0a60 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -1061,14 +1061,19 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         Nm = S.shape[1]
         if opt is None:
             opt = MinL1InL2Ball.Options()
-        super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
-                                            S.dtype, opt)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
         # Record epsilon value and l1 weight array
         self.epsilon = self.dtype.type(epsilon)
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
 
+        # Array S is required for initialisation of the working variable U
         self.S = np.asarray(S, dtype=self.dtype)
+
+        super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
+                                            S.dtype, opt)
+
         self.setdict(D)
 
 
diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index b7fe0b0..121259e 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -1566,7 +1566,8 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
         self.fl2norm2 = fl2norm2_func(self.real_dtype)
 
         # Infer problem dimensions and set relevant attributes of self
-        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        if not hasattr(self, 'cri'):
+            self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
 
         # Determine whether axis swapping on Y block 0 is necessary
         self.y0swapaxes = bool(self.cri.C > 1 and self.cri.Cd > 1)
@@ -2017,9 +2018,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
@@ -2217,8 +2217,15 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
+        # Infer problem dimensions and set relevant attributes of self
+        if not hasattr(self, 'cri'):
+            self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+
+        # Attributes required for initialisation of the working variable
+        # U need to be set before calling parent class __init__
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
@@ -2227,6 +2234,8 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
 
 
     def uinit(self, ushape):
-- 
2.43.0


From 3ca1b11cc756d08ca9b07eec993fff4a95f202d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:49 +0000
Subject: [PATCH 15/67] fix: HighMemSolve option of ConvElasticNet,
 ConvBPDNGradReg, ConvL1L1Grd

ConvL1L1Grd raised an AttributeError with option HighMemSolve, and
ConvElasticNet and ConvBPDNGradReg inherited an rhochange method that
replaces the cached component of the x step solver by one that
corresponds to a linear system without the additional diagonal term.
---
 sporco/admm/cbpdn.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 121259e..2de3b90 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -994,6 +994,14 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu + self.rho, self.cri.axisM)
+
+
 
 
 class ConvBPDNGradReg(ConvBPDN):
@@ -1222,6 +1230,15 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu*self.GHGf + self.rho,
+                self.cri.axisM)
+
+
 
 
 class ConvBPDNProjL1(GenericConvBPDN):
@@ -2659,9 +2676,14 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
+        # Infer problem dimensions and set relevant attributes of self
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+
+        # Attributes required by method setdict need to be set before
+        # calling parent class __init__
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2673,6 +2695,9 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
                                          self.cri.Nv, dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From afeff8fc1ef0883119ef787a5528df5c5eece15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 16/67] fix: default options of ConvBPDNJoint

The default options object was of a parent class that does not have
option L21Weight, resulting in a KeyError when no options were specified.
---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 2de3b90..2ad9427 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -781,7 +781,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
-- 
2.43.0


From 8630dfe5634e3ca528797d84a72114ffa865ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 17/67] fix: adjoint of the constraint of TV denoising for axes
 other than 0, 1, ...

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..dd0fe0c 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., k], ax)[..., np.newaxis] for k, ax in
+             enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..6d46f6b 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., k], ax)[..., np.newaxis] for k, ax in
+             enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From 822b6f63186c6598b973b6b8702486ea2e954c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 18/67] fix: regularisation term of TV problems with array
 TVWeight and caxis

---
 sporco/admm/tvl1.py | 8 ++++----
 sporco/admm/tvl2.py | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index dd0fe0c..fa51fef 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -300,8 +300,8 @@ class TVL1Denoise(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(np.abs(self.Wdf * gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gvr[..., 0:-1]**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -685,8 +685,8 @@ class TVL1Deconv(admm.ADMM):
         else:
             gvr = np.abs(self.obfn_gvar())
         dfd = np.sum(self.Wdf * np.abs(gvr[..., -1]))
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gvr[..., 0:-1]**2,
-                                               axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gvr[..., 0:-1]**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 6d46f6b..2aabb36 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -291,7 +291,8 @@ class TVL2Denoise(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gv**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
@@ -647,7 +648,8 @@ class TVL2Deconv(admm.ADMM):
             gv = self.obfn_gvar()
         else:
             gv = np.abs(self.obfn_gvar())
-        reg = np.sum(self.Wtv * np.sqrt(np.sum(gv**2, axis=self.saxes)))
+        reg = np.sum(self.Wtvna * np.sqrt(np.sum(
+            gv**2, axis=self.saxes, keepdims=True)))
         obj = dfd + self.lmbda*reg
         return (obj, dfd, reg)
 
-- 
2.43.0


From e4ae9bfdfd7245f313544280c7616448dacf2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:11 +0000
Subject: [PATCH 19/67] fix: option Y0 of SplineL1

---
 sporco/admm/spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..b0affba 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,13 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        # Set weight required by uinit when option Y0 is set
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From 6e920ea6e2a118bee98828bee77737851f4dd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:36 +0000
Subject: [PATCH 20/67] fix: rescale additional dual variable of
 ConvCnstrMODMaskDcpl_Consensus when rho is updated

---
 sporco/admm/ccmodmd.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..92d8935 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -967,6 +967,20 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """Automatic rho adjustment. The parent class method is overridden
+        to ensure that the rescaling of the scaled dual variable is also
+        applied to the additional variables introduced in the modification
+        to the baseline algorithm.
+        """
+
+        rho = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        if self.rho != rho:
+            self.U1 *= rho / self.rho
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W \left( \sum_m
         \mathbf{d}_m * \mathbf{x}_m - \mathbf{s} \right) \|_2^2`.
-- 
2.43.0


From 8abb24918aa14eca65bf36212acc07b639569e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 21/67] fix: y step of ConvBPDNScalarTV

The proximal operator of the TV term was computed with the l2 norm over
the entire array instead of over the spatial gradient index.
---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6baf958 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From 4b1f7d19ef70dd9bcc6080d5a40fc0b8a9da536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 22/67] fix: l1 term with array L1Weight in ConvBPDNScalarTV,
 ConvBPDNVectorTV

The variable has an additional trailing axis that has to be taken into
account in multiplication by the weight array.
---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6baf958..362f4cb 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -442,7 +442,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +723,8 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From f2395944d72e6b5ce6f9856b3f57c885b845a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 23/67] fix: x step of ConvBPDNScalarTV and ConvBPDNVectorTV
 with array TVWeight

When TVWeight is an array, the diagonal term of the linear system varies
on the filter axis, which is not supported by solvedbi_sm.
---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 362f4cb..946bff1 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 95ff716c3ee4da4dbc1299005b115a522e6ca875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 24/67] fix: adjoint of constraint of ConvBPDNRecTV with
 multi-channel dictionary

The sum over the channel axis was missing, so that the dual residual was
incorrect.
---
 sporco/admm/cbpdntv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 946bff1..4614aaf 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1282,8 +1282,11 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        X1 = irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
+                    self.cri.axisN)
+        if self.cri.Cd > 1:
+            X1 = np.sum(X1, axis=self.cri.axisC, keepdims=True)
+        return X1
 
 
 
-- 
2.43.0


From 8f9fb6fc44b4d054ebdc91ac7bf019366f586ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:10 +0000
Subject: [PATCH 25/67] fix: y step of ConvBPDNRecTV with multi-channel
 dictionary

When there is more than one channel and more than one signal, method
block_sep1 may return a copy, in which case the assignment to it was lost.
---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 4614aaf..fbf434a 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1103,10 +1103,12 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
+        Y0 = sp.prox_l1(
             self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
+        Y1 = sp.prox_l2(
             self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        # Note that block_sep1(self.Y) is not necessarily a view
+        self.Y[:] = self.block_cat(Y0, Y1)
 
 
 
-- 
2.43.0


From 31042eb01037ac04295d507fd12b0c40c485d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 26/67] fix: effect of new B in ConvProdDictBPDN.setdict

The cached array depending on B was only recomputed when D was also
given.
---
 sporco/admm/pdcsc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..8b52e50 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,6 +116,9 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
+            self.DSfBQ = None
+
+        if B is not None or self.DSfBQ is None:
             self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
                              axis=self.cri.axisC)
 
-- 
2.43.0


From 8592e612d9b45556d28437badfd11e4ceadccee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 27/67] fix: options Y0 and U0 of ConvProdDictL1L1Grd

The initial values were overwritten with zero arrays, or resulted in an
exception in the initialisation of U from Y0.
---
 sporco/admm/pdcsc.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 8b52e50..b0b618a 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -401,12 +401,31 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        self.Nc = np.prod(np.array(self.yshp))
+        if opt['Y0'] is None:
+            self.Y = self.yinit(self.yshp)
+        else:
+            self.Y = opt['Y0'].astype(self.dtype, copy=True)
+        self.Yprev = self.Y.copy()
+        if opt['U0'] is None:
+            self.U = self.uinit(self.yshp)
+        else:
+            self.U = opt['U0'].astype(self.dtype, copy=True)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
 
+    def uinit(self, ushape):
+        """Return initialiser for working variable U"""
+
+        # The shapes of the component blocks are not known when this
+        # method is called by the base class initialiser
+        if not hasattr(self, 'yshp'):
+            return np.zeros(ushape, dtype=self.dtype)
+        return super(ConvProdDictL1L1Grd, self).uinit(ushape)
+
+
+
     def block_sep0(self, Y):
         r"""Separate variable into component corresponding to
         :math:`\mathbf{y}_0` in :math:`\mathbf{y}\;\;`.
-- 
2.43.0


From 2c880735b8a30de71fc6ed71bb9283452a9a345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 28/67] fix: default options of ConvProdDictL1L1GrdJoint

---
 sporco/admm/pdcsc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index b0b618a..dfb67c9 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -694,6 +694,10 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        # Set default options if none specified
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
+
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From 0d2c54100b363c75d15cb5659599edd689372ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 29/67] fix: mask of AddMaskSim that is broadcast over channels
 or signals

Indexing of the impulse coefficients with the mask only affected the
first channel and signal when the mask has fewer channels or signals.
---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 2ad9427..3f27d86 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2421,7 +2421,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
+        Yi = np.where(self.W.astype(bool), self.cbpdn.dtype.type(0), Yi)
         self.cbpdn.Y[amidx] = Yi
 
 
-- 
2.43.0


From f1530dbb73c5a4a5efed40c9ac9fbabd1f1829f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 30/67] fix: AddMaskSim.setdict

The method called a function removed from sporco.linalg. The impulse
filters are now reshaped to be compatible with the new dictionary.
---
 sporco/admm/cbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 3f27d86..725d3f6 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2462,8 +2462,8 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        imp = self.imp.reshape(D.shape[:-1] + (self.imp.shape[-1],))
+        Di = np.concatenate((D, imp), axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0


From d0e97343106deb17bceb9f7cb112a202e85c43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 31/67] fix: MultiDictConvBPDN with multi-channel dictionaries

The signals were concatenated on the wrong axis.
---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 725d3f6..7f74a1c 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2893,7 +2893,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
-- 
2.43.0


From 579fc2c73af173c07a90a0bc4b1b106b206df9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 32/67] fix: MultiDictConvBPDN.reconstruct

The method called a function that is not imported into the module.
---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7f74a1c..349bba7 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2940,7 +2940,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From ec871400968d301aad3fd64ae9ef92aad5a96cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 33/67] fix: use the X argument of pgm.bpdn.BPDN.reconstruct

---
 sporco/pgm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
-- 
2.43.0


From 0b4d8e0313ab19a24201987dc3735c9d53213a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 34/67] fix: reconstruct from dictionary and coefficients in
 pgm.cmod.CnstrMOD

---
 sporco/pgm/cmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From 4252e784df10ecc2cc45c315c25921bd0a534024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:55 +0000
Subject: [PATCH 35/67] fix: Hessian of weighted data terms in PGM classes

---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 16 ++++++++++++++++
 sporco/pgm/ccmod.py | 16 ++++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 46 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 221aa75..87ba3fc 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -479,6 +479,22 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V in Fourier domain."""
+
+        DVf = inner(self.Df, V, axis=self.cri.axisM)
+        WDV = self.W**2 * irfftn(DVf, self.cri.Nv, self.cri.axisN)
+        WDVf = rfftn(WDV, self.cri.Nv, self.cri.axisN)
+        hessfv = np.conj(self.Df) * WDVf
+
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..0ee15c3 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,22 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V in Fourier domain."""
+
+        ZVf = inner(self.Zf, V, axis=self.cri.axisM)
+        WZV = self.W**2 * irfftn(ZVf, self.cri.Nv, self.cri.axisN)
+        WZVf = rfftn(WZV, self.cri.Nv, self.cri.axisN)
+        hessfv = inner(np.conj(self.Zf), WZVf, axis=self.cri.axisK)
+
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 0b1d108a15f661305fc652515ce97d569bfaea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 36/67] fix: FFT cache confusing transforms over axes -1 and -2

---
 sporco/fft.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index 4724fec..6a43644 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -196,6 +196,34 @@ def rfftn_empty_aligned(shape, axes, dtype, order='C', n=None):
 
 
 
+def _nonneg_axes(a, axes):
+    """Replace negative axis indices by equivalent non-negative ones.
+
+    This is necessary because the cache of :mod:`pyfftw.interfaces` is
+    indexed by the hash of the axes tuple, and the hashes of -1 and -2
+    are the same, so that a cached transform over axis -1 may be used
+    when a transform over axis -2 is requested, and vice versa.
+
+    Parameters
+    ----------
+    a : array_like
+      Array to be transformed
+    axes : sequence of ints or None
+      Transform axes
+
+    Returns
+    -------
+    tuple of ints or None
+      Non-negative transform axes
+    """
+
+    if axes is None:
+        return None
+    nd = np.ndim(a)
+    return tuple([ax + nd if -nd <= ax < 0 else ax for ax in axes])
+
+
+
 def fftn(a, s=None, axes=None):
     """Multi-dimensional discrete Fourier transform.
 
@@ -220,7 +248,7 @@ def fftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.fftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_nonneg_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -249,7 +277,7 @@ def ifftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.ifftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_nonneg_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -278,7 +306,7 @@ def rfftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.rfftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_nonneg_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -310,7 +338,7 @@ def irfftn(a, s, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.irfftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_nonneg_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
-- 
2.43.0


From 989632c8c52607165e50c5bb51b26cd6eb960c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 37/67] fix: channel axis of multi-channel x step in
 ParConvBPDN

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f49670e..6f48e20 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From 0d56da91ca55fc2dd2462691b07c1649c0e132f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 38/67] fix: initial values Y0, Y1, U0, U1 ignored by
 ParConvBPDN

---
 sporco/admm/parcbpdn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 6f48e20..a6f3e63 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -639,7 +639,8 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
+        init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, self.dtype),
+                                       self.cri.axisM, mp_axisM))
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
@@ -648,7 +649,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -657,7 +658,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -666,14 +667,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 86ad127192e0b5be7b678ce1bfa9ece33c6129e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 39/67] fix: first and last iteration of ParConvBPDN for large
 iteration counts

---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index a6f3e63..0aec283 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -773,10 +773,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From 641b56d81bc0941f3bc1edcb5df8d56e5f4e36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:27 +0000
Subject: [PATCH 40/67] fix: setdict without effect on ParConvBPDN

---
 sporco/admm/parcbpdn.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 0aec283..eb8eef1 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -636,8 +636,6 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_S
         init_mpraw('mp_S', np.moveaxis(self.S*self.W**2, self.cri.axisM,
                                        mp_axisM))
-        global mp_Df
-        init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
         init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, self.dtype),
                                        self.cri.axisM, mp_axisM))
@@ -697,13 +695,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_grp = [np.min(i) for i in
                   np.array_split(np.array(range(self.cri.M)),
                                  mp_ngrp)] + [self.cri.M, ]
-        global mp_cache
-        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            mp_cache = [sl.solvedbi_sm_c(mp_Df[k], np.conj(mp_Df[k]),
-                                         mp_alpha**2, mp_axisM) for k in
-                        np.array_split(np.array(range(self.cri.M)), self.ngrp)]
-        else:
-            mp_cache = [None for k in mp_grp]
+        self._init_mpdict()
         global mp_b
         shp_b = shp_Y0[:]
         shp_b[0] = 1
@@ -727,6 +719,30 @@ class ParConvBPDN(GenericConvBPDN):
 
 
 
+    def _init_mpdict(self):
+        """Initialise the shared variables depending on the dictionary."""
+
+        global mp_Df
+        init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
+        global mp_cache
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            mp_cache = [sl.solvedbi_sm_c(mp_Df[k], np.conj(mp_Df[k]),
+                                         mp_alpha**2, mp_axisM) for k in
+                        np.array_split(np.array(range(self.cri.M)), self.ngrp)]
+        else:
+            mp_cache = [None for k in mp_grp]
+
+
+
+    def setdict(self, D=None):
+        """Set dictionary array."""
+
+        super(ParConvBPDN, self).setdict(D)
+        if D is not None:
+            self._init_mpdict()
+
+
+
     def solve(self):
         """Start (or re-start) optimisation. This method implements the
         framework for the iterations of an ADMM algorithm.
-- 
2.43.0


From 43dcb1638cf1859f862bc050b27a407d3344fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:01 +0000
Subject: [PATCH 41/67] fix: L1Weight ignored in AccurateDFid statistics of
 dictionary learning

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..421bf77 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -517,7 +517,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..4832f87 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -533,7 +533,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From e090efa1081711761d097359048a508fc3faad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 42/67] fix: L1Weight, NonNegCoef and NoBndryCross ignored by
 parallel dictionary learning

---
 sporco/dictlrn/prlcnscdl.py | 63 ++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 424593b..61fd7a4 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -41,6 +41,9 @@ __all__ = ['ConvBPDNDictLearn_Consensus',
 mp_cri = None    # A cnvrep.CSC_ConvRepIndexing object describing problem
                  # dimensions
 mp_lmbda = None  # Regularisation parameter lambda
+mp_wl1 = None    # Weights of the l1 norm of the X (cbpdn) step
+mp_nng = None    # Flag indicating X (cbpdn) step non-negativity constraint
+mp_nbc = None    # X (cbpdn) step boundary crossing constraint indices
 mp_dprox = None  # Projection operator of the dictionary update
 mp_xrho = None   # Penalty parameter of the X (cbpdn) step
 mp_drho = None   # Penalty parameter of the D (ccmod) step
@@ -175,6 +178,56 @@ def cbpdn_relax(k):
 
 
 
+def cbpdn_regprox(k, V):
+    """Compute the proximal operator of the regularisation term of the
+    cbpdn stage, including the constraints selected by the options of
+    this stage. All other inputs are from global variables.
+
+    Parameters
+    ----------
+    k : int
+      Slice index
+    V : array_like
+      Array to which the proximal operator is applied
+
+    Returns
+    -------
+    Z : ndarray
+      Output array
+    """
+
+    wl1 = mp_wl1[k if mp_wl1.shape[0] > 1 else 0]
+    Z = sp.prox_l1(V, (mp_lmbda/mp_xrho)*wl1)
+    if mp_nng:
+        Z[Z < 0.0] = 0.0
+    for idx in mp_nbc:
+        Z[idx] = 0.0
+    return Z
+
+
+
+def cbpdn_setreg(xstep):
+    """Set the global variables describing the regularisation term of
+    the cbpdn stage.
+
+    Parameters
+    ----------
+    xstep : object
+      Object representing the X (cbpdn) step
+    """
+
+    global mp_nng, mp_nbc
+    init_mpraw('mp_wl1', swap_axis_to_0(xstep.wl1, xstep.cri.axisK))
+    mp_nng = xstep.opt['NonNegCoef']
+    mp_nbc = []
+    if xstep.opt['NoBndryCross']:
+        for n in range(xstep.cri.dimN):
+            if xstep.D.shape[n] > 1:
+                mp_nbc.append((slice(None),) * n +
+                              (slice(1 - xstep.D.shape[n], None),))
+
+
+
 def cbpdn_ystep(k):
     """Do the Y step of the cbpdn stage. The only parameter is the slice
     index `k` and there are no return values; all inputs and outputs are
@@ -182,7 +235,7 @@ def cbpdn_ystep(k):
     """
 
     AXU = mp_Z_X[k] + mp_Z_U[k]
-    mp_Z_Y[k] = sp.prox_l1(AXU, (mp_lmbda/mp_xrho))
+    mp_Z_Y[k] = cbpdn_regprox(k, AXU)
 
 
 
@@ -454,6 +507,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        cbpdn_setreg(self.xstep)
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -632,7 +686,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
                       axis=self.xstep.cri.axisM+1) - Sf
         Ef = np.swapaxes(Ef, 0, self.xstep.cri.axisK+1)[0]
         dfd = fl2norm2(Ef, self.xstep.S.shape, axis=self.xstep.cri.axisN)/2.0
-        rl1 = np.sum(np.abs(X))
+        rl1 = np.sum(np.abs(mp_wl1 * X))
         obj = dfd + self.xstep.lmbda*rl1
         return (obj, dfd, rl1)
 
@@ -722,7 +776,7 @@ def cbpdnmd_ystep(k):
     AXU0 = mp_DX[k] - mp_S[k] + mp_Z_U0[k]
     AXU1 = mp_Z_X[k] + mp_Z_U1[k]
     mp_Z_Y0[k] = mp_xrho*AXU0 / (W**2 + mp_xrho)
-    mp_Z_Y1[k] = sp.prox_l1(AXU1, (mp_lmbda/mp_xrho))
+    mp_Z_Y1[k] = cbpdn_regprox(k, AXU1)
 
 
 
@@ -1010,6 +1064,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        cbpdn_setreg(self.xstep)
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -1205,7 +1260,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
                        self.xstep.cri.Nv, np.array(self.xstep.cri.axisN) + 1)
 
         dfd = (np.linalg.norm(W * (DX - S))**2) / 2.0
-        rl1 = np.sum(np.abs(self.getcoef()))
+        rl1 = np.sum(np.abs(self.xstep.wl1 * self.getcoef()))
         obj = dfd + self.xstep.lmbda*rl1
 
         return (obj, dfd, rl1)
-- 
2.43.0


From f78b91245b1dba432d89c83533d3d9e96726318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 43/67] fix: wrong gradient or exception in online dictionary
 learning with single-channel or single-filter dictionaries

---
 sporco/dictlrn/onlinecdl.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..00058a3 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -278,7 +278,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self.extdict(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -288,21 +288,22 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def extdict(self):
+        """Get current dictionary in external representation (i.e. without
+        the axes of the internal representation that are not present in
+        the dictionary size specification).
+        """
+
+        cri = self.cri
+        chn = (cri.Cd,) if cri.dimCd > 0 else ()
+        return self.D.reshape(self.D.shape[0:cri.dimN] + chn + (cri.M,))
+
+
+
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
-        self.Z[:] = np.asarray(Z, dtype=self.dtype)
+        self.Z[:] = np.asarray(Z, dtype=self.dtype).reshape(self.cri.shpX)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
 
@@ -560,7 +561,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self.extdict(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From e453301e3792a448b7b1c55c68cddfb2bf81cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 44/67] fix: online dictionary learning ignores a change in the
 number of signals or channels

---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 00058a3..327350a 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From e0f6faff03f07f25e3960cb12522c1e13f1c468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 45/67] fix: mask not squared in gradient of online dictionary
 learning

---
 sporco/dictlrn/onlinecdl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 327350a..aac2aa4 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -579,9 +579,10 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
 
         # Compute residual X D - S in frequency domain
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
-        # Transform to spatial domain, apply mask, and transform back to
-        # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        # Transform to spatial domain, apply squared mask (the data
+        # fidelity term is the squared norm of the masked residual), and
+        # transform back to frequency domain
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From 0a81cc7a3e3f48bdea5adacc112ce894a15bd8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 46/67] fix: integer function values misinterpreted in
 mpiutil.grid_search

---
 sporco/mpiutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..14421cf 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -129,9 +129,10 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     # Distribute computation among processes in MPI communicator
     afprm = np.asarray(list(fprm))  # Faster to communicate array data
     iterlen = afprm.shape[0]
+    fval_dtype = np.float64  # Buffer type into which values are gathered
     begin, end = _get_rank_limits(comm, iterlen)
     rankgrid = (afprm[begin:end, :])
-    rankfval = np.asarray(list(map(fn, rankgrid)))
+    rankfval = np.asarray(list(map(fn, rankgrid)), dtype=fval_dtype)
 
     if rankfval.ndim == 1:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
-- 
2.43.0


From 4daf5f78d1ebc32a9a9efca35e3f140cd4b40b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 47/67] fix: wrong gather counts for multi-valued functions in
 mpiutil.grid_search

---
 sporco/mpiutil.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 14421cf..3d552bf 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -140,15 +140,10 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     else:  # Function with a vector return value
         # Vector for gathering all the results
         fval = np.empty([afprm.shape[0], rankfval.shape[1]])
-        # Size of values to collect locally
-        sizeL = np.array(np.prod(np.array(rankfval.shape)))
-        # Number of processes to collect from
-        sizeW = comm.Get_size()
         # Vector to collect the sizes from each process
-        sizes = np.zeros(sizeW, dtype=int)
-        comm.Allgather([sizeL, MPI.INT], [sizes, MPI.INT])
+        sizes = np.array(comm.allgather(rankfval.size))
         # Vector to collect the offsets for each process
-        offsets = np.zeros(sizeW, dtype=int)
+        offsets = np.zeros(sizes.shape, dtype=int)
         offsets[1:] = np.cumsum(sizes)[:-1]
         # Collecting variable size of vector return values
         comm.Allgatherv(rankfval, [fval, sizes, offsets, mpidtype])
-- 
2.43.0


From d4b10a34045377ba5073798452ccc13eba98ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 48/67] fix: mpiutil.grid_search mixes collectives when some
 processes have no grid points

---
 sporco/mpiutil.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 3d552bf..9203ab7 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -134,6 +134,11 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     rankgrid = (afprm[begin:end, :])
     rankfval = np.asarray(list(map(fn, rankgrid)), dtype=fval_dtype)
 
+    # Shape of the return value of the function. The first process always
+    # has a non-empty set of grid points, unlike the remaining ones.
+    fshp = comm.bcast(rankfval.shape[1:], root=0)
+    rankfval = rankfval.reshape((end - begin,) + fshp)
+
     if rankfval.ndim == 1:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
-- 
2.43.0


From 5116dd85a5a1d22c7aa6adb692751811aeb008bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 49/67] fix: grid_search rejects grid axes that are not numpy
 arrays

---
 sporco/mpiutil.py | 1 +
 sporco/util.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 9203ab7..6052709 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -124,6 +124,7 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
         comm = MPI.COMM_WORLD
     if mpidtype is None:
         mpidtype = MPI.DOUBLE
+    grid = tuple(np.asarray(a) for a in grid)
     fprm = itertools.product(*grid)
 
     # Distribute computation among processes in MPI communicator
diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..b838558 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -140,6 +140,7 @@ def grid_search(fn, grd, fmin=True, nproc=None):
         slct = np.nanargmin
     else:
         slct = np.nanargmax
+    grd = tuple(np.asarray(a) for a in grd)
     fprm = itertools.product(*grd)
     osname = platform.system()
     if osname == 'Windows' or osname == 'Darwin':
-- 
2.43.0


From 48c5b3d2b33c352fbd8677e318250e6fa195e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 50/67] fix: netgetdata does not retry when the response times
 out

---
 sporco/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sporco/util.py b/sporco/util.py
index b838558..4444880 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -199,10 +199,13 @@ def netgetdata(url, maxtry=3, timeout=10):
             rspns = urlrequest.urlopen(url, timeout=timeout)
             cntnt = rspns.read()
             break
-        except urlerror.URLError as e:
-            err = e
-            if not isinstance(e.reason, socket.timeout):
-                raise
+        except (IOError, OSError) as e:
+            # Errors occurring while waiting for or reading the response
+            # are not wrapped in a URLError by urlopen
+            err = e if isinstance(e, urlerror.URLError) \
+                else urlerror.URLError(e)
+            if not isinstance(err.reason, socket.timeout):
+                raise err
     else:
         raise err
 
-- 
2.43.0


From e27c273fd6397b76113bf65ae0470ff55b220797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 51/67] fix: solver objects cannot be pickled once iteration
 statistics are recorded

---
 sporco/common.py          | 40 +++++++++++++++++++++++++++++++++++++--
 sporco/dictlrn/dictlrn.py | 11 +++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/sporco/common.py b/sporco/common.py
index f57723f..cadfcff 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -85,6 +85,43 @@ def _fix_dynamic_class_lookup(cls, pstfx):
 
 
 
+def _itstat_type(fields, _types={}):
+    """Get the named tuple type for recording iteration statistics with
+    the specified fields. In contrast with the result of calling
+    :func:`collections.namedtuple` directly, objects of this type can be
+    pickled, so that solver objects that hold iteration statistics can
+    be pickled too.
+
+    Parameters
+    ----------
+    fields : sequence of strings
+      Names of the fields of the named tuple
+
+    Returns
+    -------
+    type
+      Named tuple type
+    """
+
+    fields = tuple(fields)
+    if fields not in _types:
+        ntpl = collections.namedtuple('IterationStats', fields)
+        ntpl.__reduce__ = lambda self: (_itstat_restore,
+                                        (self._fields, tuple(self)))
+        _types[fields] = ntpl
+    return _types[fields]
+
+
+
+def _itstat_restore(fields, values):
+    """Reconstruct a pickled iteration statistics object."""
+
+    return _itstat_type(fields)(*values)
+
+
+
+
+
 class _IterSolver_Meta(type):
     """Metaclass for iterative solver classes that handles
     intialisation of IterationStats namedtuple and applies
@@ -97,8 +134,7 @@ class _IterSolver_Meta(type):
     def __init__(cls, *args):
 
         # Initialise named tuple type for recording iteration statistics
-        cls.IterationStats = collections.namedtuple('IterationStats',
-                                                    cls.itstat_fields())
+        cls.IterationStats = _itstat_type(cls.itstat_fields())
         # Apply _fix_nested_class_lookup function to class after creation
         _fix_nested_class_lookup(cls, nstnm='Options')
 
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 04113b5..5a1315c 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -14,7 +14,6 @@ from future.utils import with_metaclass
 from builtins import range
 from builtins import object
 
-import collections
 
 from sporco import cdict
 from sporco import common
@@ -66,7 +65,7 @@ class IterStatsConfig(object):
           formats that depart from the standard format
         """
 
-        self.IterationStats = collections.namedtuple('IterationStats', isfld)
+        self.isfld = tuple(isfld)
         self.isxmap = isxmap
         self.isdmap = isdmap
         self.evlmap = evlmap
@@ -80,6 +79,14 @@ class IterStatsConfig(object):
 
 
 
+    @property
+    def IterationStats(self):
+        """Named tuple type for recording iteration statistics."""
+
+        return common._itstat_type(self.isfld)
+
+
+
     def iterstats(self, j, t, isx, isd, evl):
         """Construct IterationStats namedtuple from X step and D step
         IterationStats namedtuples.
-- 
2.43.0


From 29246c3ff6fb8619015255da63f3e235a0554b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 52/67] fix: dictionary learning modifies the options object it
 is given

---
 sporco/dictlrn/bpdndl.py    | 6 ++++--
 sporco/dictlrn/cbpdndl.py   | 6 ++++--
 sporco/dictlrn/cbpdndlmd.py | 8 +++++---
 sporco/dictlrn/wbpdndl.py   | 6 ++++--
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index 06bf2b4..a09ec64 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -153,14 +153,16 @@ class BPDNDictLearn(dictlrn.DictLearn):
 
         # Modify D update options to include initial values for Y and U
         Nc = D0.shape[1]
-        opt['CMOD'].update({'Y0': D0, 'U0': np.zeros((S.shape[0], Nc))})
+        # (in a copy, so that the options object is not modified)
+        dopt = copy.deepcopy(opt['CMOD'])
+        dopt.update({'Y0': D0, 'U0': np.zeros((S.shape[0], Nc))})
 
         # Create X update object
         xstep = bpdn.BPDN(D0, S, lmbda, opt['BPDN'])
 
         # Create D update object
         Nm = S.shape[1]
-        dstep = cmod.CnstrMOD(xstep.Y, S, (Nc, Nm), opt['CMOD'])
+        dstep = cmod.CnstrMOD(xstep.Y, S, (Nc, Nm), dopt)
 
         # Configure iteration statistics reporting
         if self.opt['AccurateDFid']:
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 421bf77..01a0ad0 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -450,7 +450,9 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
 
         # Modify D update options to include initial value for Y
         optname = 'X0' if dmethod == 'pgm' else 'Y0'
-        opt['CCMOD'].update({optname: cr.zpad(
+        # (in a copy, so that the options object is not modified)
+        dopt = copy.deepcopy(opt['CCMOD'])
+        dopt.update({optname: cr.zpad(
             cr.stdformD(D0, cri.Cd, cri.M, dimN), cri.Nv)})
 
         # Create X update object
@@ -458,7 +460,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
                          dimK=dimK, dimN=dimN)
 
         # Create D update object
-        dstep = ConvCnstrMOD(None, S, dsz, opt['CCMOD'], method=dmethod,
+        dstep = ConvCnstrMOD(None, S, dsz, dopt, method=dmethod,
                              dimK=dimK, dimN=dimN)
 
         # Configure iteration statistics reporting
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 4832f87..f5dfd1d 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -468,21 +468,23 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
         else:
             Y0b0 = np.zeros(cri.Nv + (1, 1, cri.C * cri.K))
         Y0b1 = cr.zpad(cr.stdformD(D0, cri.Cd, cri.M, dimN), cri.Nv)
+        # (in a copy, so that the options object is not modified)
+        dopt = copy.deepcopy(opt['CCMOD'])
         if dmethod == 'pgm':
-            opt['CCMOD'].update({'X0': Y0b1})
+            dopt.update({'X0': Y0b1})
         else:
             if dmethod == 'cns':
                 Y0 = Y0b1
             else:
                 Y0 = np.concatenate((Y0b0, Y0b1), axis=cri.axisM)
-            opt['CCMOD'].update({'Y0': Y0})
+            dopt.update({'Y0': Y0})
 
         # Create X update object
         xstep = ConvBPDNMask(D0, S, lmbda, W, opt['CBPDN'], method=xmethod,
                              dimK=dimK, dimN=dimN)
 
         # Create D update object
-        dstep = ConvCnstrMODMask(None, S, W, dsz, opt['CCMOD'],
+        dstep = ConvCnstrMODMask(None, S, W, dsz, dopt,
                                  method=dmethod, dimK=dimK, dimN=dimN)
 
         # Configure iteration statistics reporting
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 148780f..f83043e 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -154,7 +154,9 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
 
         # Modify D update options to include initial values for Y and U
         Nc = D0.shape[1]
-        opt['CMOD'].update({'X0': D0})
+        # (in a copy, so that the options object is not modified)
+        dopt = copy.deepcopy(opt['CMOD'])
+        dopt.update({'X0': D0})
 
         # Create X update object
         xstep = bpdn.WeightedBPDN(D0, S, lmbda, W=W, opt=opt['BPDN'])
@@ -162,7 +164,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
         # Create D update object
         Nm = S.shape[1]
         dstep = cmod.WeightedCnstrMOD(xstep.Y, S, W=W, dsz=(Nc, Nm),
-                                      opt=opt['CMOD'])
+                                      opt=dopt)
 
         if W is None:
             W = np.array([1.0], dtype=xstep.dtype)
-- 
2.43.0


From c4345818826c131401d3b6a37907ac50d3cef512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 53/67] fix: state of step size and backtracking objects shared
 between PGM solvers

---
 sporco/pgm/pgm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 227fd4a..4ee48ad 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -242,13 +242,15 @@ class PGM(IterativeSolver):
         self.set_attr('L', opt['L'], dval=1.0, dtype=self.dtype)
 
         # Configure policy for step size
-        # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        # Step size policy is turned off if Backtrack is enabled. This, the
+        # momentum, and the backtracking object may have internal state, and
+        # are copied so that it is not shared with other solver objects
+        self.stepsizepolicy = copy.deepcopy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
         # Configure Momentum coefficients
-        self.momentum = self.opt['Momentum']
+        self.momentum = copy.deepcopy(self.opt['Momentum'])
 
         # If using adaptative stop criterion, set tau0 parameter
         if self.opt['AutoStop', 'Enabled']:
@@ -264,7 +266,7 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        self.backtrack = copy.deepcopy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From 32d6a946e6a3b877735c4e3baf20eb8ed728a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 54/67] fix: dictionary learning solver objects not picklable
 after others constructed

---
 sporco/admm/ccmod.py        |  6 ++++--
 sporco/admm/ccmodmd.py      |  6 ++++--
 sporco/common.py            | 14 ++++++++++++++
 sporco/dictlrn/cbpdndl.py   | 12 ++++++++----
 sporco/dictlrn/cbpdndlmd.py | 12 ++++++++----
 5 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/sporco/admm/ccmod.py b/sporco/admm/ccmod.py
index 6bdfa25..fe584ba 100644
--- a/sporco/admm/ccmod.py
+++ b/sporco/admm/ccmod.py
@@ -959,7 +959,8 @@ def ConvCnstrMOD(*args, **kwargs):
             super(ConvCnstrMOD, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMOD
-    _fix_dynamic_class_lookup(ConvCnstrMOD, method)
+    ConvCnstrMOD = _fix_dynamic_class_lookup(
+        ConvCnstrMOD, method)
 
     # Return object of the nested class type
     return ConvCnstrMOD(*args, **kwargs)
@@ -995,7 +996,8 @@ def ConvCnstrMODOptions(opt=None, method='cns'):
             super(ConvCnstrMODOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
+    ConvCnstrMODOptions = _fix_dynamic_class_lookup(
+        ConvCnstrMODOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODOptions(opt)
diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 92d8935..7db5747 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -1103,7 +1103,8 @@ def ConvCnstrMODMaskDcpl(*args, **kwargs):
             super(ConvCnstrMODMaskDcpl, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMODMaskDcpl
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskDcpl, method)
+    ConvCnstrMODMaskDcpl = _fix_dynamic_class_lookup(
+        ConvCnstrMODMaskDcpl, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskDcpl(*args, **kwargs)
@@ -1140,7 +1141,8 @@ def ConvCnstrMODMaskDcplOptions(opt=None, method='cns'):
             super(ConvCnstrMODMaskDcplOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODMaskDcplOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskDcplOptions, method)
+    ConvCnstrMODMaskDcplOptions = _fix_dynamic_class_lookup(
+        ConvCnstrMODMaskDcplOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskDcplOptions(opt)
diff --git a/sporco/common.py b/sporco/common.py
index cadfcff..9d1bd8e 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -66,12 +66,25 @@ def _fix_dynamic_class_lookup(cls, pstfx):
     pstfx : string
       Postfix that can be used to identify dynamically generated classes
       that are equivalent by construction
+
+    Returns
+    -------
+    cls : class
+      The class that is found under the lookup name, which is the class
+      constructed first when equivalent classes are constructed more than
+      once
     """
 
     # Extended name for the class that will be added to the module namespace
     extnm = '_' + cls.__name__ + '_' + pstfx
     # Get the module in which the dynamic class is defined
     mdl = sys.modules[cls.__module__]
+    # If an equivalent class has already been constructed, it is the one
+    # that should be used: if it were replaced in the module namespace, its
+    # existing instances could no longer be pickled
+    prev = getattr(mdl, extnm, None)
+    if prev is not None and prev.__bases__ == cls.__bases__:
+        return prev
     # Allow lookup of the dynamically generated class within the module via
     # its extended name
     setattr(mdl, extnm, cls)
@@ -80,6 +93,7 @@ def _fix_dynamic_class_lookup(cls, pstfx):
         cls.__qualname__ = extnm
     else:
         cls.__name__ = extnm
+    return cls
 
 
 
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 01a0ad0..834366c 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -78,7 +78,8 @@ def ConvBPDNOptions(opt=None, method='admm'):
             super(ConvBPDNOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvBPDNOptions
-    _fix_dynamic_class_lookup(ConvBPDNOptions, method)
+    ConvBPDNOptions = _fix_dynamic_class_lookup(
+        ConvBPDNOptions, method)
 
     # Return object of the nested class type
     return ConvBPDNOptions(opt)
@@ -115,7 +116,8 @@ def ConvBPDN(*args, **kwargs):
             super(ConvBPDN, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvBPDN
-    _fix_dynamic_class_lookup(ConvBPDN, method)
+    ConvBPDN = _fix_dynamic_class_lookup(
+        ConvBPDN, method)
 
     # Return object of the nested class type
     return ConvBPDN(*args, **kwargs)
@@ -174,7 +176,8 @@ def ConvCnstrMODOptions(opt=None, method='pgm'):
             super(ConvCnstrMODOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODOptions, method)
+    ConvCnstrMODOptions = _fix_dynamic_class_lookup(
+        ConvCnstrMODOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODOptions(opt)
@@ -221,7 +224,8 @@ def ConvCnstrMOD(*args, **kwargs):
             super(ConvCnstrMOD, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMOD
-    _fix_dynamic_class_lookup(ConvCnstrMOD, method)
+    ConvCnstrMOD = _fix_dynamic_class_lookup(
+        ConvCnstrMOD, method)
 
     # Return object of the nested class type
     return ConvCnstrMOD(*args, **kwargs)
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index f5dfd1d..9e9b9d5 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -80,7 +80,8 @@ def ConvBPDNMaskOptions(opt=None, method='admm'):
             super(ConvBPDNMaskOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvBPDNOptions
-    _fix_dynamic_class_lookup(ConvBPDNMaskOptions, method)
+    ConvBPDNMaskOptions = _fix_dynamic_class_lookup(
+        ConvBPDNMaskOptions, method)
 
     # Return object of the nested class type
     return ConvBPDNMaskOptions(opt)
@@ -117,7 +118,8 @@ def ConvBPDNMask(*args, **kwargs):
             super(ConvBPDNMask, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvBPDNMask
-    _fix_dynamic_class_lookup(ConvBPDNMask, method)
+    ConvBPDNMask = _fix_dynamic_class_lookup(
+        ConvBPDNMask, method)
 
     # Return object of the nested class type
     return ConvBPDNMask(*args, **kwargs)
@@ -176,7 +178,8 @@ def ConvCnstrMODMaskOptions(opt=None, method='pgm'):
             super(ConvCnstrMODMaskOptions, self).__init__(opt)
 
     # Allow pickling of objects of type ConvCnstrMODMaskOptions
-    _fix_dynamic_class_lookup(ConvCnstrMODMaskOptions, method)
+    ConvCnstrMODMaskOptions = _fix_dynamic_class_lookup(
+        ConvCnstrMODMaskOptions, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMaskOptions(opt)
@@ -224,7 +227,8 @@ def ConvCnstrMODMask(*args, **kwargs):
             super(ConvCnstrMODMask, self).__init__(*args, **kwargs)
 
     # Allow pickling of objects of type ConvCnstrMODMask
-    _fix_dynamic_class_lookup(ConvCnstrMODMask, method)
+    ConvCnstrMODMask = _fix_dynamic_class_lookup(
+        ConvCnstrMODMask, method)
 
     # Return object of the nested class type
     return ConvCnstrMODMask(*args, **kwargs)
-- 
2.43.0


From db44274e3122db74490c7498ef03f5f94b5dbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 55/67] fix: copying or pickling an options object alters
 options coupled to others

---
 sporco/cdict.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 901b4d1..fcf485b 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -52,6 +52,13 @@ class InvalidValueError(ValueError):
 
 
 
+def _new_dict(cls):
+    """Create an empty object of a :class:`ConstrainedDict` class."""
+
+    return cls.__new__(cls)
+
+
+
 class ConstrainedDict(dict):
     """A dict subclass that constrains the allowed dict keys.
 
@@ -257,6 +264,27 @@ class ConstrainedDict(dict):
 
 
 
+    def __reduce_ex__(self, protocol):
+        """Support copying and pickling. The content is part of the state
+        (see :meth:`__setstate__`) since derived classes may override
+        :meth:`__setitem__` so that setting one entry modifies other ones,
+        so that inserting the entries one by one may alter the content.
+        """
+
+        return (_new_dict, (self.__class__,),
+                (self.__dict__, list(self.items())))
+
+
+
+    def __setstate__(self, state):
+        """Restore attributes and content of the object."""
+
+        attr, items = state
+        self.__dict__.update(attr)
+        super(ConstrainedDict, self).update(items)
+
+
+
     @staticmethod
     def getparent(d, pth):
         """Get the parent node of a subdict as specified by the key path
-- 
2.43.0


From 056e49a403defc87e2b6e56e705a5fe383e09da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 56/67] fix: rgb2gray for arrays of images and for integer
 images

The weights were broadcast against the last axis, not the colour axis, of
an Nr x Nc x 3 x K array, and were truncated to zero for integer dtypes.
---
 sporco/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index dd7d833..7c4c3fa 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -106,8 +106,9 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
+    dtype = rgb.dtype if np.issubdtype(rgb.dtype, np.inexact) else np.float64
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype)
+    w = w.reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
     return np.sum(w * rgb, axis=2)
 
 
-- 
2.43.0


From 405d4eeb9ad5bc42544d7db48e9b97f6422232be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 57/67] fix: rndmask with an integer dtype

The random values were converted to the mask dtype before they were
compared with the threshold, so that integer masks were all zero.
---
 sporco/signal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 7c4c3fa..e015950 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,10 +85,8 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
-    return msk
+    msk = np.abs(np.random.uniform(-1.0, 1.0, shp))
+    return np.asarray(msk > frc, dtype=np.float64 if dtype is None else dtype)
 
 
 
-- 
2.43.0


From 4264d8d329b7e5b56348c393c64ebbc03850bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 58/67] fix: bilinear_demosaic interpolates the red and blue
 channels linearly

RectBivariateSpline is of degree three by default, so that the result was
not the bilinear interpolation, and small images were rejected.
---
 sporco/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/interp.py b/sporco/interp.py
index 0a1e58b..cb55170 100644
--- a/sporco/interp.py
+++ b/sporco/interp.py
@@ -54,7 +54,7 @@ def bilinear_demosaic(img):
     x = range(1, img.shape[0], 2)
     y = range(1, img.shape[1], 2)
     #fi = interp2d(x, y, img[1::2, 1::2])
-    fi = RectBivariateSpline(x, y, img[1::2, 1::2], s=0)
+    fi = RectBivariateSpline(x, y, img[1::2, 1::2], kx=1, ky=1, s=0)
     sr = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     # Interpolate green channel. We can't use `interp2d` here because
@@ -83,7 +83,7 @@ def bilinear_demosaic(img):
     x = range(0, img.shape[0], 2)
     y = range(0, img.shape[1], 2)
     #fi = interp2d(x, y, img[0::2, 0::2])
-    fi = RectBivariateSpline(x, y, img[0::2, 0::2], s=0)
+    fi = RectBivariateSpline(x, y, img[0::2, 0::2], kx=1, ky=1, s=0)
     sb = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     return np.dstack((sr, sg, sb))
-- 
2.43.0


From 178edc6b609735f80e26af5ee1f2bfbcf351eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 59/67] fix: bsnr for unsigned integer images

The difference of the images wrapped around.
---
 sporco/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..587b7a0 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -192,7 +192,10 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    # Difference is promoted to float if vblr and vnsy have integer dtype
+    vblr, vnsy = np.asarray(vblr), np.asarray(vnsy)
+    dtype = np.result_type(vblr.dtype, vnsy.dtype, np.float32)
+    nsevar = np.var(np.subtract(vnsy, vblr, dtype=dtype))
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From e4e51d9bd492dfa7685893409ffe29b39eeaa70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 60/67] fix: psnr for signed integer images with a large range

The difference of the extreme values wrapped around.
---
 sporco/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 587b7a0..33d1f00 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,7 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(vref.max() - vref.min())
+        rng = np.abs((vref.max() + 0.0) - vref.min())
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
-- 
2.43.0


From c0ccfe32be977cf1701f23a8028a31d88a19487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 61/67] fix: scroll events alter the view of all axes of a
 figure

---
 sporco/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/plot.py b/sporco/plot.py
index 0359c30..7b65bf3 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -97,6 +97,10 @@ def attach_zoom(ax, scaling=2.0):
 
     # See https://stackoverflow.com/questions/11551049
     def zoom(event):
+        # Ignore events for other axes of the same figure
+        if event.inaxes is not ax:
+            return
+
         # Get the current x and y limits
         cur_xlim = ax.get_xlim()
         cur_ylim = ax.get_ylim()
-- 
2.43.0


From 5eede3895983681f47decf210239e90f32f6ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 62/67] fix: repeated zooming when several plots are drawn in
 the same axes

---
 sporco/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index 7b65bf3..a3c5c0f 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -174,7 +174,10 @@ def attach_zoom(ax, scaling=2.0):
 
     # Get figure for specified axes and attach the event handler
     fig = ax.get_figure()
-    fig.canvas.mpl_connect('scroll_event', zoom)
+    # Replace any event handler previously attached to the same axes
+    if hasattr(ax, '_sporco_zoom_cid'):
+        fig.canvas.mpl_disconnect(ax._sporco_zoom_cid)
+    ax._sporco_zoom_cid = fig.canvas.mpl_connect('scroll_event', zoom)
 
     return zoom
 
-- 
2.43.0


From 5bd64c9b204a7670a68e9c3125bbe7f4cbc4ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 63/67] fix: zooming in axes with an inverted x axis

---
 sporco/plot.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index a3c5c0f..b05c0e4 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -130,15 +130,26 @@ def attach_zoom(ax, scaling=2.0):
         new_ylim = (ydata - y_top * scale_factor,
                     ydata + y_bottom * scale_factor)
 
+        # Ensure that xlim tuple has the smallest value first
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            xlim_ref = zoom.xlim_ref[::-1]
+            new_xlim = new_xlim[::-1]
+        else:
+            xlim_ref = zoom.xlim_ref
+
         # Ensure that x limit range is no larger than that of the reference
-        if np.diff(new_xlim) > np.diff(zoom.xlim_ref):
-            new_xlim *= np.diff(zoom.xlim_ref) / np.diff(new_xlim)
+        if np.diff(new_xlim) > np.diff(xlim_ref):
+            new_xlim *= np.diff(xlim_ref) / np.diff(new_xlim)
         # Ensure that lower x limit is not less than that of the reference
-        if new_xlim[0] < zoom.xlim_ref[0]:
-            new_xlim += np.array(zoom.xlim_ref[0] - new_xlim[0])
+        if new_xlim[0] < xlim_ref[0]:
+            new_xlim += np.array(xlim_ref[0] - new_xlim[0])
         # Ensure that upper x limit is not greater than that of the reference
-        if new_xlim[1] > zoom.xlim_ref[1]:
-            new_xlim -= np.array(new_xlim[1] - zoom.xlim_ref[1])
+        if new_xlim[1] > xlim_ref[1]:
+            new_xlim -= np.array(new_xlim[1] - xlim_ref[1])
+
+        # Return the xlim tuple to its original order
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            new_xlim = new_xlim[::-1]
 
         # Ensure that ylim tuple has the smallest value first
         if zoom.ylim_ref[1] < zoom.ylim_ref[0]:
-- 
2.43.0


From 30fa2ac95273de55e924482db8d68b5250b72c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 64/67] fix: imview displays pixel values for positions outside
 of the image

---
 sporco/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index b05c0e4..7093f0b 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -677,8 +677,8 @@ def imview(img, title=None, copy=True, fltscl=False, intrp='nearest',
 
     def format_coord(x, y):
         nr, nc = imgd.shape[0:2]
-        col = int(x + 0.5)
-        row = int(y + 0.5)
+        col = int(np.floor(x + 0.5))
+        row = int(np.floor(y + 0.5))
         if col >= 0 and col < nc and row >= 0 and row < nr:
             z = img[row, col]
             if imgd.ndim == 2:
-- 
2.43.0


From aa56a3c0d2455552b3ca00e33f2b037cd18cd112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 65/67] fix: contour labels displayed when disabled by a zero
 font size

---
 sporco/plot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index 7093f0b..c585ca6 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -508,12 +508,10 @@ def contour(z, x=None, y=None, v=5, xlog=False, ylog=False, xlbl=None,
     xg, yg = np.meshgrid(x, y)
 
     cntr = ax.contour(xg, yg, z, v, colors='black')
-    kwargs = {}
     if cfntsz is not None and cfntsz > 0:
-        kwargs['fontsize'] = cfntsz
-    if cfmt is not None:
-        kwargs['fmt'] = cfmt
-    if kwargs:
+        kwargs = {'fontsize': cfntsz}
+        if cfmt is not None:
+            kwargs['fmt'] = cfmt
         plt.clabel(cntr, inline=True, **kwargs)
     pc = ax.pcolormesh(xg, yg, z, cmap=cmap, vmin=vmin, vmax=vmax, alpha=alpha,
                        shading='gouraud', clim=(vmin, vmax))
-- 
2.43.0


From 1b0170eb7320bad2abcbabc19477f00440c17b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 66/67] fix: ExampleImages groups for a path with a trailing
 separator

---
 sporco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index 4444880..b303d98 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -424,7 +424,7 @@ class ExampleImages(object):
         if pth is None:
             self.bpth = os.path.join(os.path.dirname(__file__), 'data')
         else:
-            self.bpth = pth
+            self.bpth = os.path.normpath(pth)
         self.imglst = []
         self.grpimg = {}
         for dirpath, dirnames, filenames in os.walk(self.bpth):
-- 
2.43.0


From 477b1ee1414c143024fad8087b456a834f78ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 67/67] fix: ExampleImages conversion to grayscale of grayscale
 images

---
 sporco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index b303d98..04d4d45 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -568,7 +568,7 @@ class ExampleImages(object):
                 img = sn.zoom(img, zoom)
             else:
                 img = sn.zoom(img, (zoom,)*2 + (1,)*(img.ndim-2))
-        if gray:
+        if gray and img.ndim > 2:
             img = signal.rgb2gray(img)
 
         return img
-- 
2.43.0

