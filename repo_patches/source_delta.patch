From 0c045051c7a5704696a4c3b3b187bdc250cfbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 01/17] fix: import the RBF kernel from the package that
 contains it

score_estimators has no kernels subpackage, so importing the package failed.
---
 .../score_estimators/score_function_estimators_pytorch.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..ff66856 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,11 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+try:
+    from ..kernels.RBF_pytorch import RBF
+except ImportError:
+    ###this clause is for imports to work properly for the documendation
+    from kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From b4cc178efd61dbfc351e793477de6849ebcd4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/17] fix: start the stochastic forward flow at y1 in every
 dimension

Only the first two coordinates were initialised: one-dimensional systems
raised IndexError and coordinates beyond the second started at 0.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..355b154 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -239,8 +239,8 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
@@ -911,8 +911,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
-- 
2.43.0


From bdf821b86e9f269dcb9ba514dce8906c18be0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 03/17] fix: pass the time to the drift in the stochastic
 forward flow

The drift was evaluated without t, so a time dependent drift f(x,t) failed or
used its default t at every step.
---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 355b154..4590550 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -245,7 +245,7 @@ class DPFC(object):
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
                     self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
+                                      self.dt* self.f(self.Z[:, i, ti-1], tt-self.dt) + \
                                       (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
 
                 ###WEIGHT
-- 
2.43.0


From 5efdc5f9cc2d6ed562e792e40b728e8efeb52e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 04/17] fix: weigh stochastic particles with exp(U(x,t)*dt)

U is documented to take (x,t); it was called without t (TypeError) and the
exponent was not multiplied by the time step as in the deterministic flow.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 4590550..6d2efcd 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -251,7 +251,7 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -921,7 +921,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From 9dbf7e40744b2ef529bcc0ae1baf9e5b9714ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 05/17] fix: do not overwrite the stochastic forward flow at t2
 with the target

The forward flow is unconstrained at t2. Collapsing it onto y2 gives a zero
lengthscale there, and the whole backward flow becomes nan (e.g. y2=0.5).
---
 .../DeterministicParticleFlowControl.py                         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 6d2efcd..50f79dc 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -259,8 +259,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From 16ccd69a2c54c8dab233c2d5825860e37b92936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 06/17] fix: orientation of the score in the pytorch true-drift
 forward flow

Inducing points are already (M x dim) and the estimate is (N x dim), so a
Brownian bridge run with torched_DPFC failed with a shape error.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 50f79dc..1ed4440 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -981,14 +981,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From feddf5f071a0df5c3fff9ea97c05aa0eeb704888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 07/17] fix: evaluate the scalar-lengthscale pytorch score at
 tensor inputs

The returned function raised UnboundLocalError for torch tensors, which is what
torched_DPFC passes for one-dimensional systems.
---
 .../score_estimators/score_function_estimators_pytorch.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ff66856..4bd7d29 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -148,8 +148,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
                   def K_sz(y):
                       if not torch.is_tensor(y):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
-                      X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
+                          y = torch.tensor(y, dtype=torch.float64, device=device)
+                      X_i = y[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
                       # Divide by length scale
-- 
2.43.0


From 1a3d7d2fb208826621132f62b3ca39546caccb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 08/17] fix: honour the weighting constant C in the pytorch
 score estimator

---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 4bd7d29..ba0dca0 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -65,7 +65,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From ae44929b4ab37568aa30758cd0f7cfe9fd7f1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 09/17] fix: accept every documented input type in the pytorch
 score estimator

Array or list lengthscales failed with func_out=True, zero dimensional tensor
lengthscales always failed, and numpy inducing points with tensor samples were
not converted.
---
 .../score_function_estimators_pytorch.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ba0dca0..3c40c8e 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -70,13 +70,13 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
 
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if not torch.is_tensor(Z):
+          Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel()>1):
           multil = True
+          if not torch.is_tensor(l):
+              l = torch.tensor(l, dtype=torch.float64, device=device)
 
           ### for different lengthscales for each dimension
 
-- 
2.43.0


From 2813dd5de076b43762f71b6a03fb812d499ff38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 10/17] fix: accept array-like initial and target states in
 torched_DPFC

y1 was asked for a tensor size before it was converted to a tensor.
---
 .../DeterministicParticleFlowControl.py                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 1ed4440..0b07c5c 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -813,14 +813,16 @@ class torched_DPFC(object):
 
         self.device = device
         # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
+        self.dim = torch.tensor(len(y1), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
             self.y1 = torch.tensor(y1, dtype=torch.float64, device=self.device)
-            self.y2 = torch.tensor(y2, dtype=torch.float64, device=self.device)
         else:
             self.y1 = y1
+        if not torch.is_tensor(y2):
+            self.y2 = torch.tensor(y2, dtype=torch.float64, device=self.device)
+        else:
             self.y2 = y2
 
 
-- 
2.43.0


From 4bf3ffdeb47dd7957ec770b7f154b6cc180ad38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 11/17] fix: evaluate Brownian bridge controls at the requested
 points

The points were clipped to bounds of the wrong axis (min,max of dimension 0 as
lower and those of dimension 1, or zeros, as upper bound), so the forward score
was taken elsewhere; with one or three dimensions it raised. Clipping is not
used anywhere else, nor in the pytorch version.
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 0b07c5c..c82a550 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -678,10 +678,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From 51f911b81e038e8b73f6e63bdbb57a6143112613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 12/17] fix: torched check_if_covered tests against both flows

It accepted points within the hull of the union of the two flows, which may be
outside both; as documented (and as in DPFC) the point has to be inside both.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index c82a550..a0719d9 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1494,8 +1494,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
             
             
 
-- 
2.43.0


From 7eb1fe7b412eb00c7835ecaa85072db238dc38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 13/17] fix: RBF.gradient_X uses the kernel of its own
 arguments

It multiplied with the kernel matrix left behind by the last Kernel() call, so
the result depended on the call history; numpy inputs and a missing Y failed.
---
 DeterministicParticleFlowControl/kernels/RBF_pytorch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..c2cecb7 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -133,7 +133,13 @@ class RBF:
 
         """
         #N, D = X.shape    
-        M,_ = Y.shape
+        if not torch.is_tensor(X):
+          X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+            Y = X
+        elif not torch.is_tensor(Y):
+            Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
+        self.Kernel(X, Y) ##kernel at the points the gradient is asked for
         diffs = X[:,None]-Y            
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-- 
2.43.0


From 654dd833d31105932e037255a513d7b2e0950412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 14/17] fix: use every dimension in the function output of
 score_function_multid_seperate2

With a vector lengthscale only the first two coordinates entered the kernel.
---
 DeterministicParticleFlowControl/score_estimators/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..601aa1c 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -106,7 +106,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
         if multil:                
             #res = np.ones((x.shape[0],y.shape[0]))                
             #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: K(x,Z,l,multil=True)
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From a5fb6b044c10c8399b3c89a4dfc29c985683c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 15/17] fix: draw the pytorch sampling noise in double
 precision on the chosen device

---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index a0719d9..24083b4 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -914,7 +914,7 @@ class torched_DPFC(object):
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
                                  (self.g)*\
-                                     torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                     torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
@@ -1082,7 +1082,7 @@ class torched_DPFC(object):
                                           #substract dt because I want the time at t-1
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                                       self.dt*self.f_true(self.Ztr[:, :, ti-1], tt-self.dt)+\
-                                 (self.g)*torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                 (self.g)*torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
             else:
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                     self.dt* self.f_seperate_true(self.Ztr[:, :, ti-1], tt-self.dt)
-- 
2.43.0


From d948f34e4a38080f85d4be1a6c1ed309ca1a8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 16/17] fix: regularise the pytorch score estimator in double
 precision

---
 .../score_function_estimators_pytorch.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 3c40c8e..7cf54db 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -97,7 +97,7 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
-    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, device=device))
+    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, dtype=torch.float64, device=device))
     A = torch.t(K_xz) @ K_xz ##matrix multilication
     #compute the gradient of the X x Z kernel
     gradx_K = -K_instance.gradient_X(X, Z) #shape: (N,M,dim)
@@ -113,8 +113,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         #                 Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv@sumgradx_K[:,di]
 
         for di in range(dim):
-            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, device=device) + \
-                                            Ksinv @ A + 1e-3 * torch.eye(M, device=device))\
+            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                            Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))\
                                             @ Ksinv @ sumgradx_K[:,di]
 
         #res1 = np.einsum('ik,kj->ij', -K_xz @ np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv, sumgradx_K)
@@ -160,8 +160,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
-        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, device=device) + \
-                                                      Ksinv @ A + 1e-3 * torch.eye(M, device=device))) @ Ksinv@sumgradx_K
+        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                                      Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))) @ Ksinv@sumgradx_K
 
 
     return res1   ### shape out N x dim
\ No newline at end of file
-- 
2.43.0


From 532351cdc322142401d11d1588721c1603369e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 17/17] fix: DPFC accepts the documented array_like end points
 (lists and tuples had no size attribute)

---
 .../DeterministicParticleFlowControl.py                          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 24083b4..3c4a228 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -155,6 +155,7 @@ class DPFC(object):
 
     def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True):
 
+        y1, y2 = np.asarray(y1), np.asarray(y2) # array_like end points: lists and tuples too
         self.dim = y1.size # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
-- 
2.43.0

