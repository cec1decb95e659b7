From 30c3472528a0c756ec17c254159400b0df96bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 01/57] fix: EvoMPS_MPS_Generic.update() returns whether it
 truncated, as documented

---
 evoMPS/mps_gen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 7270f74..6c3b13a 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -327,6 +327,10 @@ class EvoMPS_MPS_Generic(object):
         restore_RCF_after_trunc : bool (True)
             Whether to restore_RCF after truncation.
             
+        Returns
+        -------
+        truncated : bool (only if auto_truncate == True)
+            Whether truncation was performed.
         """
         assert restore_CF or not auto_truncate, "auto_truncate requires restore_RCF"
         
@@ -341,6 +345,7 @@ class EvoMPS_MPS_Generic(object):
                         self.restore_CF(normalize=normalize)
                     else:
                         self._update_after_truncate(*data, normalize=normalize)
+                return bool(data)
         else:
             self.calc_l()
             if normalize:
-- 
2.43.0


From 3c2b4537032fceee89b25712d49986a26f0e8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 02/57] fix: invtr() raises LinAlgError for singular matrices
 (scipy has no LinAlgError)

---
 evoMPS/matmul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 9c86676..7592d67 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -459,7 +459,7 @@ def invtr(A, overwrite=False, lower=False):
     inv_A, info = trtri(A, lower=lower, overwrite_c=overwrite)
     
     if info > 0:
-        raise sp.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
+        raise la.LinAlgError("%d-th diagonal element of the matrix is zero" % info)
     if info < 0:
         raise ValueError('illegal value in %d-th argument of internal potri'
                                                                     % -info)       
-- 
2.43.0


From 6502709bda77bb05c41cd6c116d57e8f522c101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 03/57] fix: log messages of _B_overlap() have placeholders for
 their arguments

---
 evoMPS/tdvp_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index fb1126e..dbfb495 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1216,12 +1216,12 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             d, ev, lL = self.fidelity_per_site(other, full_output=True, left=True)
             d, ev, rL = self.fidelity_per_site(other, full_output=True, left=False)
             if not abs(1 - d) < 1E-12:
-                log.warning("Warning! Attempt to calculate tangent vector overlap for non-equivalent states.", d)
+                log.warning("Warning! Attempt to calculate tangent vector overlap for non-equivalent states. d = %s", d)
             l = [None] * L
             r = [None] * L
             nrm = abs(m.adot(lL, rL))
             if not abs(nrm - 1) < 1E-12:
-                log.warning("Warning! Normalization error in _B_overlap.", nrm)
+                log.warning("Warning! Normalization error in _B_overlap. norm = %s", nrm)
             l[-1] = lL.reshape(self.l[-1].shape)
             r[-1] = rL.reshape(self.r[-1].shape)
 
-- 
2.43.0


From 40e99d41c3437d3f46014e229dfb482e60395c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 04/57] fix: _B_overlap_onsite() refers to self.A

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index dbfb495..9a4d0f3 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1154,7 +1154,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         #print "M=", M
         Ae = list(self.A) * int(sp.ceil((L - 1. + 2. * M - 1.) / L))
         if A2 is None:
-            A2e = A
+            A2e = Ae
         else:
             A2e = list(A2) * int(sp.ceil((L - 1. + 2. * M - 1.) / L))
         #print len(A)
-- 
2.43.0


From 2b0ee205b35d09aec69200e629638ee119c8b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 05/57] fix: EvoMPS_line_search.bracket_step() calls the
 existing function f

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 9a4d0f3..61a7650 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1975,7 +1975,7 @@ class EvoMPS_line_search():
             else:
                 tau1 *= fac_red
             
-            g1 = self.g(tau1)
+            g1 = self.f(tau1)
             
             i += 1
             
-- 
2.43.0


From 2138cc4337982c0d6cf24176117e3db3d490bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 06/57] fix: import_state() passes the block length when
 shrinking q

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 61a7650..01199f9 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1574,7 +1574,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         newA[0].shape[2]) and (newA[0].shape[1] == self.A[0].shape[1]):
             newQ = self.q
             savedQ = newA[0].shape[0]
-            self._init_arrays(self.D, savedQ)
+            self._init_arrays(self.D, savedQ, self.L)
             self.A = newA
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
-- 
2.43.0


From 6088ba2a86842c74818e16a28dd298de9abecc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 07/57] fix: evolve_split() sets up the MPO blocks before the
 first use

---
 evoMPS/split_step.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 7497617..d3828aa 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -838,8 +838,6 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
     KR = [None] * (mps.N + 2)
     KR[mps.N + 1] = KR_bulk
-    for n in reversed(range(1, mps.N + 1)):
-        update_Heff_right(n)
 
     HMA = [None] * (mps.N + 1)
     HML = [sp.eye(1, dtype=mps.typ)] + [None] * mps.N
@@ -848,9 +846,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         HM = [None] * (mps.N + 1)
     else:
         HM = HMPO
-        for n in range(mps.N, 0, -1):
-            HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
-            HMR[n - 1] = mps.calc_MPO_rm1(HMA[n], n, HMR[n])
+
+    for n in reversed(range(1, mps.N + 1)):
+        update_Heff_right(n)
 
     def can_increase_D(n):
         can = (
-- 
2.43.0


From 3247a2656ff762884ee902fe024f0487cd3467d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 08/57] fix: three-site Hamiltonians in Excite_H_Op_tp raise
 NotImplementedError

---
 evoMPS/mps_uniform_excite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform_excite.py b/evoMPS/mps_uniform_excite.py
index 63f5d9f..3a85013 100644
--- a/evoMPS/mps_uniform_excite.py
+++ b/evoMPS/mps_uniform_excite.py
@@ -585,7 +585,7 @@ class Excite_H_Op_tp:
             return V_, AhlAo1, A_o2c, Ao1, Ao1c, A_Vr_ho2, A_A_o12c, rhs10, _ham_tp
             
         elif self.ham_sites == 3:
-            return
+            raise NotImplementedError("Only two-site Hamiltonians are supported.")
 
     def calc_BHB(self, x, p, tdvp, tdvp2, prereq,
                     M_prev=None, y_pi_prev=None, pinv_solver=None):
@@ -593,7 +593,7 @@ class Excite_H_Op_tp:
             pinv_solver = las.gmres
             
         if self.ham_sites == 3:
-            return
+            raise NotImplementedError("Only two-site Hamiltonians are supported.")
         else:
             V_, AhlAo1, A_o2c, Ao1, Ao1c, A_Vr_ho2, A_A_o12c, rhs10, _ham_tp = prereq
         
-- 
2.43.0


From f542169a5b52d03e2c00d3987d1d5c60c67b8eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 09/57] fix: the find_ground()/evolve_state() stubs can be
 called on an instance

---
 evoMPS/tdvp_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 01199f9..709e407 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -736,10 +736,10 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             self.A[k] = A0[k] - dtau/6 * B_fin[k]
              
 
-    def find_ground(use_CG=True, max_steps=None, tol=1E-6):
+    def find_ground(self, use_CG=True, max_steps=None, tol=1E-6):
         pass
 
-    def evolve_state():
+    def evolve_state(self):
         pass
             
     def _prepare_excite_op_top_triv(self, p, pinv_tol=1E-12, pinv_solver=None):
-- 
2.43.0


From edde4deed237fdba9c45d6a875e68929c222fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 10/57] fix: set_state_product() uses the local dimension of
 the site it sets

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 6c3b13a..f095414 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -228,7 +228,7 @@ class EvoMPS_MPS_Generic(object):
 
         for n in range(self.N):
             self.A[n+1].fill(0)
-            for q in range(self.q[n]):
+            for q in range(self.q[n+1]):
                 self.A[n+1][q,0,0] = psi[n][q]
 
         if do_update:
-- 
2.43.0


From ce76e5a887a5e4ed9a651f3841ab45f6f32552be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 11/57] fix: load_state() can read the object array written by
 save_state()

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index f095414..5c3f7cd 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1204,7 +1204,7 @@ class EvoMPS_MPS_Generic(object):
         file ; path or file
             The file to load the state from.
         """
-        tmp_A = sp.load(file)
+        tmp_A = sp.load(file, allow_pickle=True)
 
         self.D[0] = 1
         for n in range(self.N):
-- 
2.43.0


From d217c1706bbb0d57bbbc9b8ff4272f7ed9a86535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 12/57] fix: density_2s() enumerates the joint basis with the
 second site's dimension

---
 evoMPS/mps_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 5c3f7cd..5940392 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1087,7 +1087,7 @@ class EvoMPS_MPS_Generic(object):
     def density_2s(self, n1, n2):
         """Returns a reduced density matrix for a pair of (seperated) sites.
         
-        The site number basis is used: rho[s * q[n1] + u, t * q[n1] + v]
+        The site number basis is used: rho[s * q[n2] + u, t * q[n2] + v]
         with 0 <= s, t < q[n1] and 0 <= u, v < q[n2].
         
         The state must be up-to-date -- see self.update()!
@@ -1118,7 +1118,7 @@ class EvoMPS_MPS_Generic(object):
                     for t1 in range(self.q[n1]):
                         r_n1 = m.mmul(self.A[n1][t1], r_n, m.H(self.A[n1][s1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
-                        rho[s1 * self.q[n1] + s2, t1 * self.q[n1] + t2] = tmp
+                        rho[s1 * self.q[n2] + s2, t1 * self.q[n2] + t2] = tmp
         return rho
     
     def apply_op_1s(self, op, n, do_update=True):
-- 
2.43.0


From b070a9dd11112960a24d567bf946ad020fe002af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 13/57] fix: correlation_1s_1s() returns the expectation values
 of op2, not of op1 twice

---
 evoMPS/mps_gen.py     | 2 +-
 evoMPS/mps_uniform.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 5940392..5d80895 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -995,7 +995,7 @@ class EvoMPS_MPS_Generic(object):
             
         if return_exvals:
             ex1_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
+            ex2_ = sp.tile(ex2, [(d + 1) // d + 1])[:d + 1]
             return ccf, ex1_, ex2_
         else:
             return ccf
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c18943c..f66b79d 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1422,7 +1422,7 @@ class EvoMPS_MPS_Uniform(object):
             
         if return_exvals:
             ex1_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
+            ex2_ = sp.tile(ex2, [(d + 1) // L + 1])[:d + 1]
             return ccf, ex1_, ex2_
         else:
             return ccf
-- 
2.43.0


From 7040c880ffd3f62fd6cf10fc072593a9a1a00267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 14/57] fix: expect_string_1s() returns the strings of lengths
 1 to d, in that order

---
 evoMPS/mps_gen.py     | 10 +++++-----
 evoMPS/mps_uniform.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 5d80895..8f62211 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1006,14 +1006,14 @@ class EvoMPS_MPS_Generic(object):
         """
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (self.q, self.q))
+            op = sp.fromfunction(op, (self.get_q(n), self.get_q(n)))
         
-        res = sp.zeros((d), dtype=self.get_A(1).dtype)
+        res = sp.zeros((d), dtype=self.get_A(n).dtype)
         x = self.get_l(n - 1)
-        for j in range(n, n + d + 1):
+        for j in range(n, n + d):
             Aop = sp.tensordot(op, self.get_A(j), axes=([1],[0]))
-            x = tm.eps_l_noop(x, self.get_A(j), Aop)
-            res[j - n - 1] = m.adot(x, self.get_r(j))
+            x = tm.eps_l_noop(x, Aop, self.get_A(j))
+            res[j - n] = m.adot(x, self.get_r(j))
         
         return res
 
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index f66b79d..f0eed76 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1805,9 +1805,9 @@ class EvoMPS_MPS_Uniform(object):
         
         res = []
         x = self.l[(k - 1) % self.L]
-        for n in range(k, k + d + 1):
+        for n in range(k, k + d):
             nm = n % self.L
-            x = tm.eps_l_noop(x, self.A[nm], Aop[nm])
+            x = tm.eps_l_noop(x, Aop[nm], self.A[nm])
             res.append(m.adot(x, self.r[nm]))
         
         return np.array(res)
-- 
2.43.0


From 9e17c68d6774d894ba9ff7f535b97b1498bc0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 15/57] fix: two-site expectation values of uniform states use
 the environment right of both sites

---
 evoMPS/mps_uniform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index f0eed76..87269d3 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1452,8 +1452,9 @@ class EvoMPS_MPS_Uniform(object):
             op = np.vectorize(op, otypes=[np.complex128])
             op = np.fromfunction(op, (self.q, self.q, self.q, self.q))        
         
-        Ck = tm.calc_C_mat_op_AA(op, self.AA[k])
-        res = tm.eps_r_op_2s_C12_AA34(self.r[k], Ck, self.AA[k])
+        AA = tm.calc_AA(self.A[k], self.A[(k + 1) % self.L])
+        Ck = tm.calc_C_mat_op_AA(op, AA)
+        res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % self.L], Ck, AA)
         
         return m.adot(self.l[k - 1], res)
         
@@ -1480,7 +1481,7 @@ class EvoMPS_MPS_Uniform(object):
         """
         L = self.L
         Ck = tm.calc_C_tp(op_tp, self.A[k], self.A[(k + 1) % L])
-        res = tm.eps_r_op_2s_C12_tp(self.r[k], Ck, self.A[k], self.A[(k + 1) % L])
+        res = tm.eps_r_op_2s_C12_tp(self.r[(k + 1) % L], Ck, self.A[k], self.A[(k + 1) % L])
         
         return m.adot(self.l[k - 1], res)
         
-- 
2.43.0


From cafb063087233c17b1199e489ba4112152399146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 16/57] fix: expect_3s() of uniform states accepts callables

---
 evoMPS/mps_uniform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 87269d3..d496123 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1511,8 +1511,7 @@ class EvoMPS_MPS_Uniform(object):
 
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (A.shape[0], A.shape[0], A.shape[0],
-                                      A.shape[0], A.shape[0], A.shape[0]))
+            op = sp.fromfunction(op, (self.q,) * 6)
 
         C = tm.calc_C_3s_mat_op_AAA(op, AAA)
         res = tm.eps_r_op_3s_C123_AAA456(self.r[(k + 2) % self.L], C, AAA)
-- 
2.43.0


From dcd252990e5a97461ce0617465ad5e9eeaf234db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 17/57] fix: reduced density matrices are no longer transposed,
 rho[s, t] = <s|rho|t>

---
 evoMPS/mps_gen.py     | 6 +++---
 evoMPS/mps_uniform.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 8f62211..bc16ca8 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1080,7 +1080,7 @@ class EvoMPS_MPS_Generic(object):
         r_nm1 = sp.empty_like(self.r[n - 1])
         for s in range(self.q[n]):
             for t in range(self.q[n]):
-                r_nm1 = m.mmul(self.A[n][t], r_n, m.H(self.A[n][s]))                
+                r_nm1 = m.mmul(self.A[n][s], r_n, m.H(self.A[n][t]))                
                 rho[s, t] = m.adot(self.l[n - 1], r_nm1)
         return rho
         
@@ -1108,7 +1108,7 @@ class EvoMPS_MPS_Generic(object):
         
         for s2 in range(self.q[n2]):
             for t2 in range(self.q[n2]):
-                r_n2 = m.mmul(self.A[n2][t2], self.r[n2], m.H(self.A[n2][s2]))
+                r_n2 = m.mmul(self.A[n2][s2], self.r[n2], m.H(self.A[n2][t2]))
                 
                 r_n = r_n2
                 for n in reversed(range(n1 + 1, n2)):
@@ -1116,7 +1116,7 @@ class EvoMPS_MPS_Generic(object):
                     
                 for s1 in range(self.q[n1]):
                     for t1 in range(self.q[n1]):
-                        r_n1 = m.mmul(self.A[n1][t1], r_n, m.H(self.A[n1][s1]))
+                        r_n1 = m.mmul(self.A[n1][s1], r_n, m.H(self.A[n1][t1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
                         rho[s1 * self.q[n2] + s2, t1 * self.q[n2] + t2] = tmp
         return rho
diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index d496123..d977e57 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1538,7 +1538,7 @@ class EvoMPS_MPS_Uniform(object):
         rho = np.empty((self.q, self.q), dtype=self.typ)
         for s in range(self.q):
             for t in range(self.q):                
-                rho[s, t] = m.adot(self.l[k - 1], m.mmul(self.A[k][t], self.r[k], m.H(self.A[k][s])))
+                rho[s, t] = m.adot(self.l[k - 1], m.mmul(self.A[k][s], self.r[k], m.H(self.A[k][t])))
         return rho
                 
     def apply_op_1s(self, op, k=0, do_update=True):
-- 
2.43.0


From 7d8983339359406a89a94d541e02b9b2712d8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 18/57] fix: expect_sum_1s_density_hc() projects with the
 environments of its own cut, returns a tuple for D == 1 and accepts callables

---
 evoMPS/mps_uniform.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index d977e57..4510fca 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1699,6 +1699,10 @@ class EvoMPS_MPS_Uniform(object):
             Matrix representing the action of the string operator within the
             space of Schmidt vectors.
         """
+        if callable(op):
+            op = np.vectorize(op, otypes=[np.complex128])
+            op = np.fromfunction(op, (self.q, self.q))
+
         expval = 0
         for j in range(self.L):
             expval += self.expect_1s(op, j)
@@ -1719,7 +1723,11 @@ class EvoMPS_MPS_Uniform(object):
         expval2 = m.adot(self.l[k - 1], rops)
 
         if self.D == 1:
-            return sp.zeros((1), dtype=self.typ)
+            expvals = sp.zeros((1), dtype=self.typ)
+            if return_g:
+                return expvals, expval2/self.L, sp.zeros((1, 1), dtype=self.typ)
+            else:
+                return expvals, expval2/self.L
 
         Ashift = self.A[k:] + self.A[:k]
         virtop = pinv.pinv_1mE(
@@ -1727,7 +1735,7 @@ class EvoMPS_MPS_Uniform(object):
             Ashift,
             Ashift,
             self.l[(k - 1) % self.L],
-            self.r[k],
+            self.r[(k - 1) % self.L],
             left=False,
             pseudo=True,
             tol=tol,
-- 
2.43.0


From 5ac6a703c2e46eeb508cd67525f606671c9687c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 19/57] fix: calc_x_l_3s() loops over the third site's local
 dimension in the term centred on the site

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e07a466..0389dd8 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -518,7 +518,7 @@ def calc_x_l_3s(Km1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, AAm2, Am1, A, Ap1, AAp1, l
         lVL = np.array([lm1_si.dot(VL[s]) for s in range(q)])
         Am1lVL = calc_AA(Am1, lVL)
         Cm1_t = Cm1.transpose((2,0,1,3,4)).copy()
-        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(q)])
+        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(Ap1.shape[0])])
         x += mm.mmul(eps_r_noop(rp1, part, Ap1), r_si)
 
     if Cm2 is not None:
-- 
2.43.0


From 6b87bbc39ebdcbd903040ca6a34aabb82efab0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 20/57] fix: calc_x_l() and calc_K_l() accept missing
 Hamiltonian terms, and h_expect[n] is the term at n for three sites too

---
 evoMPS/tdvp_common.py | 2 +-
 evoMPS/tdvp_gen.py    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 0389dd8..fcb6563 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -485,7 +485,7 @@ def calc_x_l(Km1, C, Cm1, rp1, lm2, Am1, A, Ap1, lm1_s, lm1_si, r_s, r_si, VshL)
     for s in range(q):     #~2nd line
         x_subpart.fill(0)
 
-        if not lm2 is None:
+        if not lm2 is None and not Cm1 is None:
             x_subpart = eps_l_noop_inplace(lm2, Am1, Cm1[:, s], x_subpart)
         
         if not Km1 is None:
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 22d49b4..d5c4b42 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -431,7 +431,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             
         for n in range(n_low, n_high + 1):
             #if n <= self.N - self.ham_sites + 1:
-            if self.ham_sites == 2:
+            if self.C[n - self.ham_sites + 1] is None:
+                self.K[n], ex = (tm.eps_l_noop(self.K[n - 1], self.A[n], self.A[n]), 0)
+            elif self.ham_sites == 2:
                 self.K[n], ex = tm.calc_K_l(self.K[n - 1], self.C[n - 1], self.l[n - 2], 
                                             self.r[n], self.A[n], self.AA[n - 1])
             else:
@@ -439,7 +441,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.K[n - 1], self.C[n - 2], self.l[n - 3], self.r[n],
                     self.A[n], self.AAA[n - 2])
 
-            self.h_expect[n - 1] = ex
+            self.h_expect[n - self.ham_sites + 1] = ex
             #else:
             #    self.K[n].fill(0)
                 
-- 
2.43.0


From 64b95712e3c20a83ecfcf2a9c479bcd322d4313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 21/57] fix: EvoMPS_TDVP_Uniform.calc_K_l() builds the left
 matrices from each other, not from the right ones

---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 709e407..dbd8b7d 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -424,20 +424,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if self.ham_sites == 2:
             if not self.ham_tp is None:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l_tp(self.K[(k - 1) % L],  
+                    self.K_left[k], hk = tm.calc_K_l_tp(self.K_left[(k - 1) % L],  
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[(k - 1) % L], self.A[k],
                                                  self.C[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
             else:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l(self.K[(k - 1) % L], self.C[(k - 1) % L], 
+                    self.K_left[k], hk = tm.calc_K_l(self.K_left[(k - 1) % L], self.C[(k - 1) % L], 
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[k], self.AA[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
         else:
             for k in sp.arange(0, L - 1):
-                self.K_left[k], hk = tm.calc_K_3s_l(self.K[(k - 1) % L], self.C[(k - 2) % L], 
+                self.K_left[k], hk = tm.calc_K_3s_l(self.K_left[(k - 1) % L], self.C[(k - 2) % L], 
                                                 self.l[(k - 3) % L], self.r[k],
                                                 self.A[k],
                                                 self.AAA[(k - 2) % L])
-- 
2.43.0


From 5524bdb825ae88a75f9360bc2202f82f3873f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 22/57] fix: take_step_RK4() of uniform states adds the third
 stage to the sum (list += array extended the list)

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index dbd8b7d..67c35c2 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -726,7 +726,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         B = self.calc_B(set_eta=False) #k3                
         for k in range(self.L):
             self.A[k] = A0[k] - dtau * B[k]
-            B_fin += 2 * B[k]
+            B_fin[k] += 2 * B[k]
 
         update()
         
-- 
2.43.0


From fba2dabbdec4e282e82be316272028fb8a68da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 23/57] fix: take_step() and take_step_RK4() leave the caller's
 tangent vectors alone

---
 evoMPS/tdvp_gen.py      | 2 +-
 evoMPS/tdvp_sandwich.py | 7 +++----
 evoMPS/tdvp_uniform.py  | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index d5c4b42..127012d 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -951,7 +951,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         #Take a copy of the current state
         A0 = [An.copy() if not An is None else None for An in self.A]
         
-        B_fin = self.calc_B() if B_i is None else B_i[:]
+        B_fin = self.calc_B() if B_i is None else [Bn.copy() if not Bn is None else None for Bn in B_i]
 
         for n in range(1, self.N + 1):
             if not B_fin[n] is None:
diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 0f5fe3c..98a05d5 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -810,8 +810,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         B : optional list of tensors
             The current evolution vector, to avoid duplicating computations.
         """
-        if B is None:
-            B = self.calc_B()
+        B = self.calc_B() if B is None else list(B)
         if dynexp:
             BB12, BB21, dD = self.calc_BB(sv_tol, dD_max, D_max)
 
@@ -858,8 +857,8 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         for n in range(1, self.N + 1):
             A0[n] = self.A[n].copy()
 
-        B = self.calc_B() if B_i is None else B_i[:]
-        B_fin = B[:]
+        B = self.calc_B() if B_i is None else list(B_i)
+        B_fin = [Bn.copy() if not Bn is None else None for Bn in B]
 
         for n in range(1, self.N + 1):
             if not B[n] is None:
diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 67c35c2..255dc46 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -705,7 +705,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             B = B_i
         else:
             B = self.calc_B() #k1
-        B_fin = B
+        B_fin = [Bk.copy() for Bk in B]
         self.take_step(dtau / 2., B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol, BB=BB)
 
         dD = self.A[0].shape[1] - A0[0].shape[1]
-- 
2.43.0


From 93ecde5444c8e73195ee09a5ae9dd751f8082714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 24/57] fix: sandwich from_tensors() copies the caller's
 tensors instead of sharing them

---
 evoMPS/mps_sandwich.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 1058ebc..7186927 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -34,7 +34,7 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     )
 
     for n in range(1, N + 1):
-        sw.A[n] = As_C[n - 1]
+        sw.A[n] = As_C[n - 1].copy()
 
     Ds = sp.array(
         [DL] +
@@ -43,8 +43,8 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     )
     sw.D = Ds
 
-    sw.uni_l.A = As_L
-    sw.uni_r.A = As_R
+    sw.uni_l.A = [A.copy() for A in As_L]
+    sw.uni_r.A = [A.copy() for A in As_R]
     sw.uni_l.update(restore_CF=False)
     sw.uni_r.update(restore_CF=False)
 
@@ -152,7 +152,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
 
         for n in range(1, N + 1):
-            sw.A[n] = As_C[n - 1]
+            sw.A[n] = As_C[n - 1].copy()
 
         Ds = sp.array(
             [DL] +
@@ -161,8 +161,8 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         )
         sw.D = Ds
 
-        sw.uni_l.A = As_L
-        sw.uni_r.A = As_R
+        sw.uni_l.A = [A.copy() for A in As_L]
+        sw.uni_r.A = [A.copy() for A in As_R]
         sw.uni_l.update(restore_CF=False)
         sw.uni_r.update(restore_CF=False)
 
-- 
2.43.0


From 8b97de9d534a0aeec3860fb8d405579cb3846a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 25/57] fix: import_state() and export_state() do not share
 arrays between the state and the exported data

---
 evoMPS/tdvp_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 255dc46..dbb37ca 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1499,7 +1499,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         tosave[3] = self.K[0]
         tosave[4] = np.asarray(userdata)
         
-        return tosave
+        return cp.deepcopy(tosave)
             
     def save_state(self, file, userdata=None):
         np.save(file, self.export_state(userdata))
@@ -1507,6 +1507,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def import_state(self, state, expand=False, truncate=False, 
                      expand_q=False, shrink_q=False, refac=0.1, imfac=0.1,
                      do_update=True):
+        state = cp.deepcopy(state)
         newA = state[0]
         newlL = state[1]
         newrL = state[2]
-- 
2.43.0


From 1d9aa8bfe039769394f541db6545eaef6a4e911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 26/57] fix: EvoMPS_line_search works on its own copy: the
 caller's l and r stay as they are and the starting points reach the copy

---
 evoMPS/tdvp_uniform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index dbb37ca..d555b79 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1767,12 +1767,12 @@ class EvoMPS_line_search():
         #Bring all l and r into dense form
         for k in range(tdvp.L):
             try:
-                tdvp.l[k] = tdvp.l[k].A
+                self.tdvp.l[k] = self.tdvp.l[k].A
             except AttributeError:
                 pass
             
             try:
-                tdvp.r[k] = tdvp.r[k].A
+                self.tdvp.r[k] = self.tdvp.r[k].A
             except AttributeError:
                 pass        
         
@@ -1828,8 +1828,8 @@ class EvoMPS_line_search():
             
             #Use iterative results from nearest tau as starting points
             nearest_tau_ind = abs(sp.array(self.taus) - tau).argmin()
-            self.lL_before_CF = self.lLs[nearest_tau_ind] #needn't copy these
-            self.rL_before_CF = self.rLs[nearest_tau_ind]
+            self.tdvp.lL_before_CF = self.lLs[nearest_tau_ind].copy() #these get updated in place, so copy
+            self.tdvp.rL_before_CF = self.rLs[nearest_tau_ind].copy()
             self.tdvp.K[0] = self.K0s[nearest_tau_ind].copy() #but this gets updated in place, so copy
             
             self.tdvp.update(restore_CF=False)
-- 
2.43.0


From 8f6f3b8c7403db570c28ceec990b1adc1d8b7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 27/57] fix: EvoMPS_TDVP_Uniform.from_mps() sets the right
 starting point too, not the left one twice

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index d555b79..a305615 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -118,7 +118,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         tdvp.l = cp.deepcopy(mps.l)
         tdvp.r = cp.deepcopy(mps.r)
         tdvp.lL_before_CF = tdvp.l[-1]
-        tdvp.lL_before_CF = tdvp.r[-1]
+        tdvp.rL_before_CF = tdvp.r[-1]
         tdvp.odr = mps.odr
         tdvp.itr_rtol = mps.itr_rtol
         tdvp.itr_atol = mps.itr_atol
-- 
2.43.0


From f2cd89ffc759ce648bd181c9e45f97e26b99805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 28/57] fix: evolve_split() refreshes the r matrices after each
 step whether or not there is a callback

---
 evoMPS/split_step.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index d3828aa..8bf74e9 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -892,11 +892,12 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         if print_progress:
             sys.stdout.write('\r')
 
+        # We guarantee this, but do not update the r matrices as we go.
+        # Do it now.
+        for n in range(1, mps.N+1):
+            mps.r[n] = mm.eyemat(mps.D[n], dtype=mps.typ)
+
         if cb_func is not None:
-            # We guarantee this, but do not update the r matrices as we go.
-            # Do it now.
-            for n in range(1, mps.N+1):
-                mps.r[n] = mm.eyemat(mps.D[n], dtype=mps.typ)
             # NOTE: This does *not* update all relevant quantities. The callback
             #       should do that (without modifying the A tensors!).
             cb_func(mps, i,
-- 
2.43.0


From 3ca48b3ff6007df145aacacbbaf492d65471b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 29/57] fix: ARPACK retry loops no longer report success on the
 last attempt as failure

---
 evoMPS/mps_uniform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 4510fca..50e5a85 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -379,8 +379,7 @@ class EvoMPS_MPS_Uniform(object):
                 v0 = None
                 nev += 1
                 ncv += 5
-                
-        if i == max_retries - 1:
+        else:
             log.error("_calc_lr_ARPACK(nev=%u,ncv=%u): Failed to converge! (%s)", nev, ncv, "l" if calc_l else "r")
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
@@ -453,8 +452,7 @@ class EvoMPS_MPS_Uniform(object):
                 log.warning("_calc_E_largest_eigenvalues: Retry %u!", i)
                 nev += 1
                 ncv = nev * 3
-        
-        if i == max_retries - 1:
+        else:
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
-- 
2.43.0


From 36c2b6bcad6c0ff73e50ef27c56211b3a64ddfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 30/57] fix: power iteration reports convergence on the last
 permitted iteration

---
 evoMPS/mps_uniform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 50e5a85..626a68c 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -560,6 +560,7 @@ class EvoMPS_MPS_Uniform(object):
 
         x *= n / la.norm(x)
         tmp[:] = x
+        conv = False
         for i in range(max_itr):
             x[:] = tmp
             tmp[:] = opE.matvec(x)
@@ -569,6 +570,7 @@ class EvoMPS_MPS_Uniform(object):
             tmp *= (1 / ev_mag)
             if la.norm(tmp - x) < atol + rtol * n:
                 x[:] = tmp
+                conv = True
                 break
         
         x = x.reshape((self.D, self.D))
@@ -586,7 +588,7 @@ class EvoMPS_MPS_Uniform(object):
                 if not abs(ev - 1) < atol:
                     log.warning("Sanity check failed: Largest ev after re-scale = %s", ev)
         
-        return x, i < max_itr - 1, i
+        return x, conv, i
     
     def calc_lr(self, rescale=True):
         """Determines the dominant left and right eigenvectors of the transfer 
-- 
2.43.0


From 12649a4a50812e7df7b8879842037fe800506389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 31/57] fix: gexpmv reports convergence when the last permitted
 step completes the integration

---
 evoMPS/sexpmv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index ed4f7d5..2b62669 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -225,4 +225,4 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
             iflag = 1
             break
 
-      return w, nstep < mxstep, nstep, ibrkflag==1, mbrkdwn, (x_error, s_error)
\ No newline at end of file
+      return w, not t_now < t_out, nstep, ibrkflag==1, mbrkdwn, (x_error, s_error)
\ No newline at end of file
-- 
2.43.0


From 441c6abe74bbbc7780f232922b71ec78712d288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 32/57] fix: line-search bracketing does not report failure
 when the last iteration succeeds

---
 evoMPS/tdvp_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index a305615..cc951eb 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1958,7 +1958,7 @@ class EvoMPS_line_search():
                     
             i += 1
             
-        if i == max_itr:
+        if g1 * g0 > 0:
             log.debug("CG: Polynomial extrapolation MAX ITR")
             return None
         else:
@@ -1980,7 +1980,7 @@ class EvoMPS_line_search():
             
             i += 1
             
-        if i == max_itr:
+        if g1 * g0 > 0:
             return None
         else:
             return sorted([dtau_init, tau1])
\ No newline at end of file
-- 
2.43.0


From f22124f42d859974b7db5b9321a7bce54d669ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 33/57] fix: excitation solvers stop retrying once they have
 converged

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index cc951eb..788263d 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -819,6 +819,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, which=which, k=nev, v0=v0, ncv=ncv,
                                  return_eigenvectors=return_eigenvectors, 
                                  maxiter=max_itr, tol=tol, sigma=sigma)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_triv: Retry %u!", i)
                 v0 = None
@@ -948,6 +949,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, sigma=sigma, which=which, k=nev, v0=v0,
                                     return_eigenvectors=return_eigenvectors, 
                                     maxiter=max_itr, tol=tol, ncv=ncv)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_nontriv: Retry %u!", i)
                 v0 = None
-- 
2.43.0


From 227ee5996a3801fe02477095ba2a7acdecbd125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 34/57] fix: find_min_h_brent restores the state on every exit

---
 evoMPS/tdvp_gen.py | 97 +++++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 127012d..2b063e0 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -985,8 +985,11 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                          verbose=False, use_tangvec_overlap=False,
                          max_iter=20):
         As0 = cp.deepcopy(self.A)
+        AAs0 = cp.deepcopy(self.AA)
+        AAAs0 = cp.deepcopy(self.AAA)
         Cs0 = cp.deepcopy(self.C)
         Ks0 = cp.deepcopy(self.K)
+        h_expect_n0 = self.h_expect.copy()
         h_expect_0 = self.H_expect
         
         ls0 = cp.deepcopy(self.l)
@@ -1050,54 +1053,58 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 
                 return res
         
-        if skipIfLower:
-            if f(dtau_init) < self.H_expect.real:
-                return dtau_init
-        
-        brack_init = (dtau_init * 0.9, dtau_init * 1.5)
-        
-        attempt = 1
-        while attempt < 3:
-            try:
-                log.debug("CG: Bracketing...")
-                xa, xb, xc, fa, fb, fc, funcalls = opti.bracket(f, xa=brack_init[0], 
-                                                                xb=brack_init[1], 
-                                                                maxiter=5)                                                
-                brack = (xa, xb, xc)
-                log.debug("CG: Using bracket = " + str(brack))
-                break
-            except RuntimeError:
-                log.debug("CG: Bracketing failed, attempt %u." % attempt)
-                brack_init = (brack_init[0] * 0.1, brack_init[1] * 0.1)
-                attempt += 1
-        
-        if attempt == 3:
-            log.debug("CG: Bracketing failed. Aborting!")
-            tau_opt = 0
-            h_min = h_expect_0.real
-        else:
-            try:
-                tau_opt, res_min, itr, calls = opti.brent(f, 
-                                                        brack=brack, 
-                                                        tol=tol,
-                                                        maxiter=max_iter,
-                                                        full_output=True)
-    
-                i = taus.index(tau_opt)
-                h_min = hs[i]
-            except ValueError:
-                log.debug("CG: Bad bracket. Aborting!")
+        try:
+            if skipIfLower:
+                if f(dtau_init) < self.H_expect.real:
+                    return dtau_init, hs[taus.index(dtau_init)]
+        
+            brack_init = (dtau_init * 0.9, dtau_init * 1.5)
+        
+            attempt = 1
+            while attempt < 3:
+                try:
+                    log.debug("CG: Bracketing...")
+                    xa, xb, xc, fa, fb, fc, funcalls = opti.bracket(f, xa=brack_init[0], 
+                                                                    xb=brack_init[1], 
+                                                                    maxiter=5)                                                
+                    brack = (xa, xb, xc)
+                    log.debug("CG: Using bracket = " + str(brack))
+                    break
+                except RuntimeError:
+                    log.debug("CG: Bracketing failed, attempt %u." % attempt)
+                    brack_init = (brack_init[0] * 0.1, brack_init[1] * 0.1)
+                    attempt += 1
+        
+            if attempt == 3:
+                log.debug("CG: Bracketing failed. Aborting!")
                 tau_opt = 0
                 h_min = h_expect_0.real
+            else:
+                try:
+                    tau_opt, res_min, itr, calls = opti.brent(f, 
+                                                            brack=brack, 
+                                                            tol=tol,
+                                                            maxiter=max_iter,
+                                                            full_output=True)
+    
+                    i = taus.index(tau_opt)
+                    h_min = hs[i]
+                except ValueError:
+                    log.debug("CG: Bad bracket. Aborting!")
+                    tau_opt = 0
+                    h_min = h_expect_0.real
+        finally:
+            #Must restore everything needed for take_step
+            self.A = As0
+            self.l = ls0
+            self.r = rs0
+            self.AA = AAs0
+            self.AAA = AAAs0
+            self.C = Cs0
+            self.K = Ks0
+            self.h_expect = h_expect_n0
+            self.H_expect = h_expect_0
             
-        #Must restore everything needed for take_step
-        self.A = As0
-        self.l = ls0
-        self.r = rs0
-        self.C = Cs0
-        self.K = Ks0
-        self.H_expect = h_expect_0
-        
         return tau_opt, h_min
         
         
-- 
2.43.0


From 78c87600afe11ff9d99ab63c79cca5d53e11ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 35/57] fix: take_step_dissipative restores the Hamiltonian
 when the step fails

---
 evoMPS/tdvp_gen_diss.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 8180063..e6465c3 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -158,15 +158,16 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         #Compute the combined unitary and dissipative contributions using the effective Hamiltonian. 
         ham_tmp = self.ham
         self.ham = HL
-        self.calc_C()
-        self.calc_K()
-        
-        #Let take_step compute the tangent vector
-        self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-                        dynexp=dynexp, dD_max=dD_max, D_max=D_max, sv_tol=sv_tol)
-        
-        #Restore the Hamiltonian to the ham field.
-        self.ham = ham_tmp
+        try:
+            self.calc_C()
+            self.calc_K()
+            
+            #Let take_step compute the tangent vector
+            self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
+                            dynexp=dynexp, dD_max=dD_max, D_max=D_max, sv_tol=sv_tol)
+        finally:
+            #Restore the Hamiltonian to the ham field.
+            self.ham = ham_tmp
         
         #The following are not meaningful, since we have replaced the Hamiltonian with
         #an effective one, the expectation value of which has no obvious interpretation.
-- 
2.43.0


From f780154857731526fbbcade8c8d43657815d4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 36/57] fix: take_step_dissipative accepts real Lindblad
 operators

---
 evoMPS/tdvp_gen_diss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index e6465c3..85d4a74 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -143,7 +143,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leff = -0.5 * Lr.conj().T.dot(Lr).reshape(L.shape)
             
             #Add the diffusion terms to the effective Hamiltonian by dividing by the step length
-            Leff += (sp.conj(Le) + W/dt) * L
+            Leff = Leff + (sp.conj(Le) + W/dt) * L
             
             Leffs.append((n, Leff))
                 
@@ -153,7 +153,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             if HL[n] is None:
                 HL[n] = Leff
             else:
-                HL[n] += Leff
+                HL[n] = HL[n] + Leff
         
         #Compute the combined unitary and dissipative contributions using the effective Hamiltonian. 
         ham_tmp = self.ham
-- 
2.43.0


From 34a2b0fb2fa88bc3f9f9d53b05e1cf226db74d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 37/57] fix: take_step_dissipative builds the energy blocks of
 the chosen gauge

---
 evoMPS/tdvp_gen_diss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 85d4a74..d70a6e2 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -160,7 +160,10 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         self.ham = HL
         try:
             self.calc_C()
-            self.calc_K()
+            if self.gauge_fixing == 'right':
+                self.calc_K()
+            else:
+                self.calc_K_l()
             
             #Let take_step compute the tangent vector
             self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-- 
2.43.0


From 03104bc8362edac81b863231abe0f2558e6803aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 38/57] fix: dot_inplace() of two diagonal matrices raised
 AttributeError

---
 evoMPS/matmul.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 7592d67..3fad847 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -300,6 +300,8 @@ def dot_inplace(A, B, out):
         out[:] = A
         return out
     elif isinstance(A, simple_diag_matrix):
+        if isinstance(B, simple_diag_matrix):
+            B = B.toarray()
         return mmul_diag(A.diag, B, out=out)
     elif isinstance(B, simple_diag_matrix):
         return mmul_diag(B.diag, A, out=out, act_right=False)
-- 
2.43.0


From 99e13e54c3d342424d8be08f08c6dccae4cb942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 39/57] fix: herm_fac_with_inv() inverted discarded eigenvalues
 when none is retained

---
 evoMPS/tdvp_common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index fcb6563..0d187f0 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -663,15 +663,16 @@ def herm_fac_with_inv(A, lower=False, zero_tol=1E-15, return_rank=False,
                             ev.min(), sc_data)
         
         nonzeros = np.count_nonzero(ev > zero_tol) 
+        first = ev.shape[0] - nonzeros #also correct if there are no nonzeros
 
         ev_sq = sp.zeros_like(ev, dtype=A.dtype)
-        ev_sq[-nonzeros:] = sp.sqrt(ev[-nonzeros:])
+        ev_sq[first:] = sp.sqrt(ev[first:])
         ev_sq = mm.simple_diag_matrix(ev_sq, dtype=A.dtype)
         
         if calc_inv:
             #Replace almost-zero values with zero and perform a pseudo-inverse
             ev_sq_i = sp.zeros_like(ev, dtype=A.dtype)
-            ev_sq_i[-nonzeros:] = 1. / ev_sq.diag[-nonzeros:]
+            ev_sq_i[first:] = 1. / ev_sq.diag[first:]
             
             ev_sq_i = mm.simple_diag_matrix(ev_sq_i, dtype=A.dtype)        
                    
-- 
2.43.0


From 2f07a041fbb13584e226c559fd36b15b80540a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 40/57] fix: sandwich load_state() could not restore a state
 with other bond dimensions

---
 evoMPS/mps_sandwich.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 7186927..e078aa6 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -777,6 +777,14 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             print("Cannot load state: Dimension mismatch!")
             return
 
+        for n in range(1, self.N + 1):
+            self.D[n - 1] = toload[0][n].shape[1]
+            self.D[n] = toload[0][n].shape[2]
+        self.D[self.N + 1] = self.D[self.N]
+        self._init_arrays()
+        self.uni_l._init_arrays(self.D[0], self.uni_l.q, self.uni_l.L)
+        self.uni_r._init_arrays(self.D[self.N], self.uni_r.q, self.uni_r.L)
+
         self.A = toload[0]
         self.l[0] = toload[1]
         self.uni_l.r[-1] = toload[2]
@@ -791,13 +799,13 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         
         self.uni_l.A = self.A[0]
         self.uni_l.l[-1] = self.l[0]
-        self.uni_l.l_before_CF = self.uni_l.l[-1]
-        self.uni_l.r_before_CF = self.uni_l.r[-1]
+        self.uni_l.lL_before_CF = self.uni_l.l[-1]
+        self.uni_l.rL_before_CF = self.uni_l.r[-1]
         
         self.uni_r.A = self.A[self.N + 1]
         self.uni_r.r[-1] = self.r[self.N]
-        self.uni_r.l_before_CF = self.uni_r.l[-1]
-        self.uni_r.r_before_CF = self.uni_r.r[-1]
+        self.uni_r.lL_before_CF = self.uni_r.l[-1]
+        self.uni_r.rL_before_CF = self.uni_r.r[-1]
 
         try:
             if len(self.uni_l.A.shape) == 3:
-- 
2.43.0


From e13cde7b37e47a54efecc1a14c9921a212e0ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 41/57] fix: EvoMPS_TDVP_Sandwich.load_state() failed on the
 saved energy blocks

---
 evoMPS/tdvp_sandwich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 98a05d5..e73ee9a 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -937,9 +937,9 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
 
         toload = sp.load(file_name, allow_pickle=True)
 
-        if toload[3]:
+        if toload[3] is not None:
             self.uni_l.K_left[-1] = toload[3]
-        if toload[6]:
+        if toload[6] is not None:
             self.uni_r.K[0] = toload[6]
 
         if do_update:
-- 
2.43.0


From 1a727152b802b353e80cc3f670bb2ed82c7e3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 42/57] fix: sandwich load_state(autogrow=True) grew by blocks
 instead of sites

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index e078aa6..ec75073 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -771,7 +771,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         if autogrow and toload[0].shape[0] != self.A.shape[0]:
             newN = toload[0].shape[0] - 3
             print("Changing N to: %u" % newN)
-            self.grow_left(newN - self.N)
+            self.grow_left((newN - self.N) // self.uni_l.L)
 
         if toload[0].shape != self.A.shape:
             print("Cannot load state: Dimension mismatch!")
-- 
2.43.0


From ebd6164300d392a660d7d683ab76f6b0ff9f2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 43/57] fix: evolve_scipy_ode() and evolve_scipy_ode_old()
 rebound the flag their derivative function subscripts

---
 evoMPS/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 2e11fcf..08c5448 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -310,7 +310,7 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
             print("Stopping with status:", igrtr.status)
             break
 
-        is_first_call_in_step = True
+        is_first_call_in_step[0] = True
         igrtr.step()
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
@@ -368,5 +368,5 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             print("Stopping with status:", igrtr.get_return_code())
             break
 
-        is_first_call_in_step = True
+        is_first_call_in_step[0] = True
         igrtr.integrate(igrtr.t + dt)
\ No newline at end of file
-- 
2.43.0


From a325b90fcb33d9533438a7aa3fb35f8c54c02dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 44/57] fix: evolve_scipy_ode_old() ignored rtol and atol

---
 evoMPS/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 08c5448..d457c80 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -353,7 +353,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
         igrtr = intg.complex_ode(ifunc)
     else:
         igrtr = intg.ode(ifunc)
-    igrtr.set_integrator(integrator, **kwargs)
+    igrtr.set_integrator(integrator, rtol=rtol, atol=atol, **kwargs)
     igrtr.set_initial_value(state_to_vec(s))
     
     for i in range(steps):
-- 
2.43.0


From a2d5942f1eadf6ca4a08d4af6d9289e73b99d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 45/57] fix: vari_opt_ss_sweep() ignored ncv and tol

---
 evoMPS/tdvp_gen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 2b063e0..67485a2 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1174,14 +1174,15 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         
         return Bs_CG, Bs, eta, tau
         
-    def vari_opt_ss_sweep(self, ncv=None, tol=0, HMPO=None, use_local_ham=True):
+    def vari_opt_ss_sweep(self, ncv=20, tol=1E-14, HMPO=None, use_local_ham=True):
         """Perform a DMRG-style optimizing sweep to reduce the energy.
         
         This carries out the MPS version of the one-site DMRG algorithm.
         Combined with imaginary time evolution, this can dramatically improve
         convergence speed.
         """
-        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham, DMRG=True)
+        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham,
+                             ncv=ncv, tol=tol, DMRG=True)
             
                 
     def take_step_split(self, dtau, ham_is_Herm=True, HMPO=None, 
-- 
2.43.0


From 45c3ad2ada472d6d5deaa42ffb37883543bfd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 46/57] fix: mps_uniform: restore_LCF diagonalises r with the
 eigenvectors on the right sides

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 626a68c..782c1b7 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -936,8 +936,8 @@ class EvoMPS_MPS_Uniform(object):
             if diag_r:
                 ev, EV = la.eigh(self.r[k])
         
-                G[k] = EV.dot(G[k])
-                G_i[k] = G_i[k].dot(EV.conj().T)
+                G[k] = G[k].dot(EV)
+                G_i[k] = m.H(EV).dot(G_i[k])
                               
                 self.r[k] = m.simple_diag_matrix(ev, dtype=self.typ)
             
-- 
2.43.0


From 29df6be07506d18e37fe70a86f8b3651161687a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 47/57] fix: mps_uniform: restore_SCF inverts the non-zero
 singular values, which come first

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 782c1b7..350cc72 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -742,7 +742,7 @@ class EvoMPS_MPS_Uniform(object):
             #Invert the square roots of the Schmidt coefficients.
             nonzeros = np.count_nonzero(S.diag > zero_tol)
             Srti = sp.zeros_like(S.diag, dtype=S.dtype)
-            Srti[-nonzeros:] = 1. / Srt.diag[-nonzeros:]
+            Srti[:nonzeros] = 1. / Srt.diag[:nonzeros]
             Srti = m.simple_diag_matrix(Srti, dtype=S.dtype)  
             
             g = Srti.dot(U.conj().T).dot(Y)
-- 
2.43.0


From 1d38737fdcdc10ee5cc36c4702d877016d11a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 48/57] fix: mps_sandwich: calc_r() left r[N + 1] stale, which
 queries at site N + 1 read

---
 evoMPS/mps_sandwich.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index ec75073..7538757 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -273,6 +273,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             n_high = self.N - 1
 
         self.r[self.N] = self.uni_r.r[-1]
+        self.r[self.N + 1] = self.uni_r.r[0]
         super(EvoMPS_MPS_Sandwich, self).calc_r(n_low=n_low, n_high=n_high)
 
     def simple_renorm(self, update_lr=True):
-- 
2.43.0


From 407404a16fb0237b55632bdbbfdc405a22062a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 49/57] fix: tdvp_uniform: gauge_align() left C, AA and K in
 the old gauge

---
 evoMPS/tdvp_uniform.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 788263d..ca340df 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -638,6 +638,18 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         self.calc_C()  # needed, since AA and C also change phases!
         return phi
 
+    def gauge_align(self, other, tol=1E-12):
+        """Gauge-align the state with another.
+
+        See EvoMPS_MPS_Uniform.gauge_align(). C, AA and K are recomputed
+        in the new gauge if the transformation is performed.
+        """
+        res = super(EvoMPS_TDVP_Uniform, self).gauge_align(other, tol=tol)
+        if res is not None:
+            self.calc_C()
+            self.calc_K()
+        return res
+
     def take_step(self, dtau, B=None, dynexp=False, D_max=128, dD_max=16, 
                   sv_tol=1E-14, BB=None):
         """Performs a complete forward-Euler step of imaginary time dtau.
-- 
2.43.0


From 9b7e33e31d253bd08a2cd063a9cee35f9b55f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 50/57] fix: tdvp_gen_diss: update() left C, AA and AAA of the
 previous tensors in place, which expect_2s() and expect_3s() read

---
 evoMPS/tdvp_gen_diss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index d70a6e2..0cb909f 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -93,11 +93,14 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         truncated : bool (only if auto_truncate == True)
             Whether truncation was performed.
         """
-        #Call the MPS method because we don't want to do the additional updates of EvoMPS_TDVP_Generic here.
-        return mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
+        #Call the MPS method because we don't want to do all the additional updates of EvoMPS_TDVP_Generic here.
+        trunc = mps.EvoMPS_MPS_Generic.update(self, restore_CF=restore_CF, 
                                                     normalize=normalize,
                                                     auto_truncate=auto_truncate,
                                                     restore_CF_after_trunc=restore_CF_after_trunc)
+        #The expectation values of the Lindblad operators make use of AA (or AAA) and C.
+        self.calc_C()
+        return trunc
                                                         
         
     
-- 
2.43.0


From 88584fdf8bf6c5bd4dbbbff9c1f21ef27a23c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 51/57] fix: tdvp_uniform: expect_2s() read the AA of an
 earlier state when ham_tp is set

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index ca340df..9e47e40 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1650,7 +1650,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         m.randomize_cmplx(self.K[0].ravel()[oldD**2:], a=0, b=val, aj=0, bj=0)
         
     def expect_2s(self, op, k=0):
-        if op is self.ham and self.ham_sites == 2:
+        if op is self.ham and self.ham_sites == 2 and self.ham_tp is None:
             res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % self.L], self.C[k], self.AA[k])
             return m.adot(self.l[(k - 1) % self.L], res)
         else:
-- 
2.43.0


From 30495d67d803ab699ef45880301d5470a99c0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 52/57] fix: tdvp_sandwich: three-site terms left of the
 centre: h_expect was indexed by another term's site, and the term starting at
 site -1 was that of site N

---
 evoMPS/tdvp_sandwich.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index e73ee9a..92c89d4 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -429,6 +429,8 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                 ham_n = lambda *args: self.ham(n, *args)
                 ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
                 ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
+            elif n < 0:
+                ham_n = self.uni_l.ham
             else:
                 ham_n = self.ham[n]
 
@@ -447,7 +449,8 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         K_l[n] contains 'bra-vectors' such that <K_l[n]|r[n]> = trace(K_l[n].dot(r[n])).
         """
    
-        self.h_expect = sp.zeros((self.N + 1), dtype=self.typ)
+        #With three-site terms, the last element is the term starting at site -1
+        self.h_expect = sp.zeros((self.N + self.ham_sites - 1), dtype=self.typ)
         
         self.uni_r.calc_AA()
         self.uni_r.calc_C()
@@ -479,7 +482,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
                     self.K_l[n - 1], self.get_C(n - 2), self.get_l(n - 3), self.r[n],
                     self.A[n], self.get_AAA(n - 2))
                 
-            self.h_expect[n - 1] = he
+            self.h_expect[n - self.ham_sites + 1] = he
 
         self.dH_expect = (mm.adot_noconj(self.K_l[self.N_centre], self.get_r(self.N_centre)) 
                           + mm.adot(
-- 
2.43.0


From cae9e75a1042bb944f752d5b0af22b0c11130372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 53/57] fix: tdvp_gen: calc_K_l() with n_low=3 dropped the
 two-site terms left of it, and failed for N=1

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 67485a2..d4e7687 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -426,8 +426,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if n_high < 1:
             n_high = self.N
             
-        self.K[1] = sp.zeros((self.D[1], self.D[1]), dtype=self.typ)
-        self.K[2] = sp.zeros((self.D[2], self.D[2]), dtype=self.typ)
+        for n in range(1, min(self.ham_sites, self.N + 1)):
+            self.K[n] = sp.zeros((self.D[n], self.D[n]), dtype=self.typ)
             
         for n in range(n_low, n_high + 1):
             #if n <= self.N - self.ham_sites + 1:
-- 
2.43.0


From 7bf26a54d00d89f8c0ce1e3dc8f3fb55c3ad1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 54/57] fix: tdvp_gen: take_step(save_memory=True) left eta and
 the other sites' eta_sq of an earlier step

---
 evoMPS/tdvp_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index d4e7687..5351aad 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -853,6 +853,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if (self.gauge_fixing == 'right' and save_memory and not calc_Y_2s and not dynexp
             and B is None):
             B = [None] * (self.N + 1)
+            self.eta_sq.fill(0)
             for n in range(1, self.N + self.ham_sites):
                 #V is not always defined (e.g. at the right boundary vector, and possibly before)
                 if n <= self.N:
@@ -866,6 +867,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                         B[m] = None
              
             assert all(x is None for x in B), "take_step update incomplete!"
+            self.eta = sp.sqrt(self.eta_sq.sum())
         else:
             if B is None or dynexp or calc_Y_2s:
                 l_s = sp.empty((self.N + 1), dtype=sp.ndarray)
-- 
2.43.0


From 4b60f138ed3a927d9e30b4f5f339028cfaf8e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 55/57] fix: restore_LCF_l_seq gives the environment the
 dimension of the new bond

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 0d187f0..a3e3528 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -1013,7 +1013,7 @@ def restore_LCF_l_seq(A, l, G0=None, sanity_checks=False, sc_data=''):
 
         A[n] = Q.reshape((q, Dm1_new, D_new))
         
-        l[n] = mm.eyemat(D, dtype=A[n].dtype)
+        l[n] = mm.eyemat(D_new, dtype=A[n].dtype)
         
         if sanity_checks:
             l_ = eps_l_noop(l[n - 1], A[n], A[n])
-- 
2.43.0


From 6630b1e64e5cc89a637b47bdd8cf79637217ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 56/57] fix: evolve_split(two_site=True) raised IndexError on
 reaching the last site, and continued with it after its two-site step

---
 evoMPS/split_step.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 8bf74e9..8368eb7 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -852,6 +852,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
     def can_increase_D(n):
         can = (
+            0 < n < mps.N and
             (mps.D[n] < D_max) and
             (mps.D[n] < mps.D[n-1] * mps.q[n]) and
             (mps.D[n] < mps.D[n+1] * mps.q[n+1]))
@@ -869,7 +870,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                 if n == mps.N - 1:
                     # To avoid evolving the last site twice, in case N-1 was two-step.
                     norm_est, iexpm_lr[2*n+1], iexpm_lr[2*n+2], terr_lr[n+1] = right_move_2site(n+1, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n] = right_move_1site(n, norm_est)
                 terr_lr[n] = sp.NaN
@@ -885,7 +886,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                 if n == 2:
                     # To avoid evolving the first site twice, in case 2 was two-step.
                     norm_est, iexpm_rl[2*n-3], iexpm_rl[2*n-2], terr_rl[n-1] = left_move_2site(n-2, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n] = left_move_1site(n, norm_est)
                 terr_rl[n] = sp.NaN
-- 
2.43.0


From 639ae8013bebbf18a858b53938d5390a992af4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 57/57] fix: two-site evolution with three-site Hamiltonians
 applied the adjoint of the terms reaching beyond the two sites

---
 evoMPS/split_step.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 8368eb7..5b2622b 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -264,7 +264,7 @@ class Vari_Opt_Two_Site_Op:
                         for s2_in in range(m.q[n+1]):
                             for s2_out in range(m.q[n+1]):
                                 tmp[s1_out, s2_out, s1_in, s2_in] = tm.eps_l_op_1s(
-                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in])
+                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in]).T.conj()
                 res += sp.tensordot(tmp, AAn, axes=((2,3,5),(0,1,2))) #[s1_out_tmp,s2_out_tmp,D1_tmp,D2_AAn]
 
             Anp2 = m.get_A(n + 2)
@@ -289,7 +289,7 @@ class Vari_Opt_Two_Site_Op:
                 for s_in in range(m.q[n+1]):
                     for s_out in range(m.q[n+1]):
                         C = tm.calc_C_mat_op_AA(self.ham[n + 1][s_out,:,:,s_in,:,:], self.AAnp2)
-                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, self.AAnp2, C)
+                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, self.AAnp2, C).T.conj()
 
                 res_sub = sp.tensordot(AAn, tmp, axes=((1,3),(1,2))) #[s1_AAn,D1_AAn,s_out_tmp,D2_tmp]
                 res += sp.transpose(res_sub, (0,2,1,3)) #[s1_AAn,s_out_tmp,D1_AAn,D2_tmp]
-- 
2.43.0

