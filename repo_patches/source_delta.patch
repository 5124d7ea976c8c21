From e7ed8f09312684829d663a8d18ca8e0954321bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 01/43] fix: intrep decodes in the bit order binrep encodes
 (lowest orbital first)

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From eab2e8e310e0235e4991a3af332ea3b34016a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 02/43] fix: total-number diagonal uses the up onsite energies
 for up electrons

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..7edfcda 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += edwdiag[i]*ndw[i] + eupdiag[i]*nup[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From 34acf8c610faed93f11cfa1164a6475e6b936150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 03/43] fix: separate-spin non-local Hamiltonian accepts pair
 hopping without exchange

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From 61a5d9f41d87061c038d5b6d62f3836357f282ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 04/43] fix: matvec_operator accepts an output buffer

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..2ecea1b 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From 499b4414861501f8149d28682a61fa02e7911855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 05/43] fix: todense works when the Hamiltonian has only a
 diagonal term

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 2ecea1b..e18c82c 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,7 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    out = (ops or diag_op).pop().todense()
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From 5c6669071b3138d91e5885f0d644c386dbdd06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 06/43] fix: fermionic sign of the spin-flip exchange in the
 separate-spin basis

---
 edpyt/ham_non_local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..ea4d5b7 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -113,6 +113,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
                 #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij + Jx_ij [c^+_iu c_ju] [c^+_jd c_id]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +125,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 2cb2508e0921c1c4df6075ed823b3457d8d1b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 07/43] fix: counting occupations leaves the shape of the
 eigenvectors alone

---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..06469b9 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 559e8ed0a279e539c31297fd04df9f92f47622cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 08/43] fix: exact Green function of the down spin adds a down
 electron

---
 edpyt/gf_exact.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..b532cd3 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -13,6 +13,8 @@ from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
 
+from edpyt.sector import OutOfHilbertError, get_cdg_sector
+
 
 # def Gf(q, l):
 #     """Green's function kernel wrapper.
@@ -110,11 +112,10 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        try: # Add spin (N+1 sector)
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # More spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From 9ba3340cc48be412afd83d050104d94952a423c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 09/43] fix: Lanczos Green function leaves the retained states
 of espace alone

---
 edpyt/gf_lanczos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..9bcc5fc 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # Leave the states retained in espace untouched.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +218,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # Leave the states retained in espace untouched.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From 251582569c794f64449fe8cde0183668ec4569ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 10/43] fix: off-diagonal Lanczos elements whose combined
 excitation vanishes

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From 8bf0fa2f2187f041a51da8ee1e86edf776b13cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 11/43] fix: single-site occupation helper takes the basis it
 counts, any memory layout

---
 edpyt/dedlib_dev.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..1f44cc3 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -131,7 +131,7 @@ class Gfimp:
         return np.reciprocal(z-self.e0-self.delta(z).sum(1))
 
 # @njit(cache=True,fastmath=True)
-def get_evecs_occupation(evecs, exps, states, pos):
+def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
     """Count particles in sector eigen-state vectors (size=dup x dwn).
 
     """
@@ -142,9 +142,7 @@ def get_evecs_occupation(evecs, exps, states, pos):
     N = 0.
     dup = states_up.size
     dwn = states_dw.size
-    if evecs.flags.f_contiguous:
-        evecs = evecs.T
-    occps = (evecs**2).reshape(-1, dwn, dup)
+    occps = (evecs.T**2).reshape(-1, dwn, dup)
 
     for iup in range(dup):
         sup = states_up[iup]
-- 
2.43.0


From d7c71948c6ae742c4d55d2680bd721b5621bce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 12/43] fix: sl_solve returns the eigenvalues when only those
 are asked for

---
 edpyt/lanczos.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..5612890 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,10 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
-    else:
-        assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
+    assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range)
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From b7fa6d46a495e24458f8f255d3349009dd071b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 13/43] fix: block Lanczos keeps starting-block overlaps out of
 the projected matrix

---
 edpyt/lanczos.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 5612890..b899d06 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -250,12 +250,15 @@ def build_bd_tridiag(matvec, phi0, maxn=300, delta=1e-15, tol=1e-10, ND=10):
             if len(vl)>Lc: # Eliminate v[n-Lc] from list of previous Lanc. vectors.
                 vl.pop(0)
             continue # Go to b = norm(v[0]).
-        T[n,n-Lc] = b # v become new Lanc. vector.
+        if n>=Lc: # Negative columns belong to the starting block.
+            T[n,n-Lc] = b # v become new Lanc. vector.
         v /= b
         vk.pop(0) # Eliminate v from candidates. k->k+1
         for k0, k in enumerate(range(n+1,n+Lc)): # Orthogonalize next candidates against v.
-            T[n,k-Lc] = v.dot(vk[k0])
-            vk[k0] -= T[n,k-Lc]*v
+            t = v.dot(vk[k0])
+            if k>=Lc:
+                T[n,k-Lc] = t
+            vk[k0] -= t*v
         w = matvec(v) # New candidate vector.
         for k0, k in enumerate(range(max(0,n-Lc),n)): # Orthogonalize against previous (n-Lc) Lanc. vectors.
             T[k,n] = np.conj(T[n,k])
-- 
2.43.0


From c0a3512dad6e3c25e8d00da86b7f4c514f102413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 14/43] fix: C bath fit starts from the initial bath, not from
 uninitialised memory

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..52a0961 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -6,6 +6,9 @@ from pathlib import Path
 path = Path(__file__).parent.absolute()
 # print(path)
 lib = ct.CDLL(path/'libfit.so')
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 fit = lib.fit
 fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
@@ -16,6 +19,8 @@ fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 9f8c465743720abef6a8c03465691710f03c118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 15/43] fix: three-site initial bath has its middle level at
 zero

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From 40be30a31003d11bf1702129671d0d475f68b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 16/43] fix: Brent line search keeps the minimum bracketed
 after a worse point on the left

---
 edpyt_backend/dbrent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 7d1d8ab..175247c 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -80,7 +80,7 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			MOV3(x, fx, dx, u, fu, du)
 		}
 		else {
-			if (u < x) a = x; else b = u;
+			if (u < x) a = u; else b = u;
 			if (fu <= fw || w == x) {
 				MOV3(v, fv, dv, w, fw, dw)
 				MOV3(w, fw, dw, u, fu, du)
-- 
2.43.0


From 923a42bbc3cac75b5c57ceec6301feff906ef6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 17/43] fix: sqtnl includes the empty and the full charge state

---
 edpyt/sqtnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From 4af03c429c43dca1ad955f271e363771d9563cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 18/43] fix: cotnl includes the empty and the full charge state

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..673fb3a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
-- 
2.43.0


From 32f2efd2ae22d777d5fd49a4356f4d998498906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 19/43] fix: cross term of the two-pole cotunnelling integral
 counts both orders

---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..46d8285 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -71,7 +71,7 @@ def I2(A, B, epsA, epsB, mu, beta):
             - Taylor(0,epsB,mu[1],beta)
             + Taylor(0,epsB,mu[0],beta)
         )
-    return A * B * nB(x) / (epsA-epsB) * np.real(
+    return 2 * A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
         - Psi(0,epsA,mu[0],beta) 
         - Psi(0,epsB,mu[1],beta)
-- 
2.43.0


From ecdf1c89a5e90b883df65eec0974ff47c76815fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 20/43] fix: cotunnelling integrals at coinciding chemical
 potentials or poles

---
 edpyt/integrals.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 46d8285..cedf827 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -16,13 +16,6 @@ def Psi(n, a, b, beta):
     return polygamma(n, 0.5 + (1.j*beta)/(2.*np.pi)*(a-b))
 
 
-def Taylor(n, x, a, b, beta):
-    k = Psi(n, a, b, beta)
-    return k / x \
-           - 0.5 * k \
-           + 1/12 * x * k \
-           - 1/720 * x**3 * k
-
 # fmax = 1e15
 # fmin = 1/fmax
 
@@ -35,13 +28,10 @@ nB = lambda x: 1./(np.exp(x)-1)
 
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
-    if abs(x) < 1e-16:
-        return 0. #np.sign(x)
-    if abs(x) < 1e-15:
-        return C**2 * beta/(2*np.pi) * np.imag(
-            Taylor(1,x,mu[1],eps,beta)
-          - Taylor(1,x,mu[0],eps,beta)
-        )        
+    if abs(x) < 1e-5: # nB(x) (f(mu1)-f(mu0)) -> (1 - x/2 + x^2/12) f'(mu)
+        return C**2 * beta/(2*np.pi) * (1.-0.5*x+x**2/12.) * np.imag(
+            1.j/(2*np.pi) * Psi(2,0.5*(mu[0]+mu[1]),eps,beta)
+        )
     return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
             Psi(1,mu[1],eps,beta)
           - Psi(1,mu[0],eps,beta)
@@ -62,14 +52,12 @@ def I1(C, eps, mu, beta):
 
 def I2(A, B, epsA, epsB, mu, beta):
     x = (mu[1]-mu[0])*beta
-    if abs(x) < 1e-16:
-        return 0. # -1.
-    if abs(x) < 1e-15:
-        return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+    if abs(epsA-epsB)*beta < 1e-5: # coinciding poles
+        return 2 * A * B * I1(1.,0.5*(epsA+epsB),mu,beta)
+    if abs(x) < 1e-5: # see I1
+        m = 0.5*(mu[0]+mu[1])
+        return 2 * A * B * (1.-0.5*x+x**2/12.) / (epsA-epsB) * np.real(
+            -1.j/(2*np.pi) * (Psi(1,epsA,m,beta) - Psi(1,epsB,m,beta))
         )
     return 2 * A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
-- 
2.43.0


From 901b68d951f32bd99b569c678e7cd8c9c924d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 21/43] fix: exact cotunnelling integral uses the poles of the
 amplitude

---
 edpyt/cotnl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 673fb3a..d0a0127 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -249,7 +249,7 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
+        E = [E for gf in self.gf2 for E in gf.E]
         if len(Y) == 1:
             return Gamma1(*Y,*E,mu,beta)
         elif len(Y) == 2:
-- 
2.43.0


From f73bb99808d373e9c167eb9b5e3f86888a916a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 22/43] fix: numerical cotunnelling integral multiplies the two
 Fermi factors

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index d0a0127..0c60fec 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From 31b2140661a1f178fc04d16175475bbd1942956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 23/43] fix: thermal window of the cotunnelling rate is 1/beta
 at zero energy

---
 edpyt/cotnl.py       | 4 ++--
 edpyt/cotunneling.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 0c60fec..12eab4b 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -210,10 +210,10 @@ nF.__doc__ = "Fermi function."
 def G(beta, z):
     """Helper function for approximate solution."""
     if (beta*abs(z))<1e-18:
-        return 1.
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..dc0f78e 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -230,10 +230,10 @@ class _Sigma:
     def G(beta, z):
         """Helper function for approximate solution."""
         if (beta*abs(z))<1e-18:
-            return 1.
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From f51fb6595066ccc41c553b4171ab6ec4f4b244fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 24/43] fix: approximate cotunnelling rate evaluates the
 amplitude inside its thermal window

---
 edpyt/cotnl.py       | 2 +-
 edpyt/cotunneling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 12eab4b..c5772ef 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -244,7 +244,7 @@ class Sigma:
     def approximate(self, A, extract, inject, beta, mu):
         x = self.dE-mu[extract]+mu[inject]
         # return G(beta, x) * self(0.5*x, A, extract, inject)
-        return G(beta, x) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+        return G(beta, x) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
     
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index dc0f78e..7ee051b 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -237,7 +237,7 @@ class _Sigma:
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-               ) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+               ) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
               
 
 class _Sigmae(_Sigma):
-- 
2.43.0


From e2711f944042558596a7224609b67b53b0bf1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 25/43] fix: cotunnelling amplitude accepts several energies

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 7ee051b..c1b1757 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -212,7 +212,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From 9b1bd8b8525813107573808dd40e652ed0e288fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 26/43] fix: electron path of the cotunnelling amplitude uses
 the energy variable of its window

---
 edpyt/cotunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index c1b1757..787d5d1 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -71,10 +71,10 @@ def project_add(ispin_i, ispin_j, n, nupI, ndwI, espace):
     for i in range(n):
         v_FJ[...,i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
     dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
-    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
+    E = sctJ.eigvals[None,:]-sctF.eigvals[:,None]
     gf2elist = []
     for f,i in np.ndindex(v_FJ.shape[0],v_JI.shape[1]):
-        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ)))
+        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[f],dE[f,i],(nupJ,ndwJ)))
     return gf2elist
 
 
-- 
2.43.0


From da862e2e1e70755273216f7718dc6b5dc9285eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 27/43] fix: cotunnelling rate sums over all intermediate
 states

---
 edpyt/cotunneling.py | 28 +++++++++++++++-------------
 edpyt/integrals.py   |  8 ++++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 787d5d1..bacb6b6 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -4,7 +4,7 @@ from itertools import zip_longest
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import Gamma1, Gamma2
+from edpyt.integrals import Gamma
 
 from edpyt.sector import (
     OutOfHilbertError, get_c_sector, get_cdg_sector)
@@ -209,9 +209,12 @@ class Gf2:
         self.dS = (idF[0]-idI[0],idF[1]-idI[1])
         self.nsJ = nsJ
         
+    def y(self, aF, aI):
+        return aF.dot(self.vF.T)*aI.dot(self.vI.T)
+
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
-        res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
+        res = np.einsum('j,kj->k',self.y(aF, aI),
                         np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
@@ -247,9 +250,9 @@ class _Sigmae(_Sigma):
     #  |  e     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[inject].dot(self.gf2.vF[0])*A[extract].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            self.gf2.y(A[inject],A[extract]),
+            self.gf2.E,
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
@@ -264,9 +267,9 @@ class _Sigmah(_Sigma):
     #  |  h     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[extract].dot(self.gf2.vF[0])*A[inject].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            self.gf2.y(A[extract],A[inject]),
+            self.gf2.E,
             [mu[extract]-self.dE,mu[inject]], beta)
     
     def __call__(self, z, A, extract, inject):
@@ -295,11 +298,10 @@ class Sigma(_Sigma):
         super().__init__(self.gf2e)
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma2(
-            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
-            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
-            self.gf2e.E[0], # epsA
-            self.gf2h.E[0], # epsB
+        return Gamma(
+            np.concatenate((self.gf2e.y(A[inject],A[extract]),
+                            self.gf2h.y(A[extract],A[inject]))),
+            np.concatenate((self.gf2e.E,self.gf2h.E)),
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index cedf827..805e85c 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -93,6 +93,14 @@ def Gamma2(A, B, epsA, epsB, mu, beta):
          + I2(A,B,epsA,epsB,mu,beta)
 
 
+def Gamma(C, eps, mu, beta):
+    """Sum over any number of residue/pole pairs."""
+    n = len(C)
+    return sum(I1(C[i],eps[i],mu,beta) for i in range(n)) \
+         + sum(I2(C[i],C[j],eps[i],eps[j],mu,beta) 
+               for i in range(n) for j in range(i+1,n))
+
+
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
     return Gamma2(A,B,epsA,epsB,mu,beta) \
          + Gamma2(A,C,epsA,epsC,mu,beta) \
-- 
2.43.0


From b80166be8f5df3a10595af88ea409c8f3289eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 28/43] fix: screening keeps intermediate states that couple
 asymmetrically to the leads

---
 edpyt/cotnl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index c5772ef..fcef1ec 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -332,16 +332,15 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
-    n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
-    A = np.ones((2,n))
     screened = {}
     for (idF,idI), sigmalist in sigmadict.items():
         sigmas = []
         for sigma in sigmalist:
             gfs = []
             for gf in sigma.gf2:
-                y = gf.y(A, 1, 0)
-                nnz_idx = np.abs(y) > 1e-10
+                # Largest residue for any coupling of unit norm.
+                y = np.linalg.norm(gf.vF,axis=1)*np.linalg.norm(gf.vI,axis=1)
+                nnz_idx = y > 1e-10
                 if any(nnz_idx):
                     gfs.append(gf)
                     gf.vF = gf.vF[nnz_idx,:]
-- 
2.43.0


From fe6293bfbc2afe17a053bdc3dbeacea5e3128949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 29/43] fix: matrix lattice Green function for any map of
 inequivalent sites

---
 edpyt/nano_dmft.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..b2fe86e 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,12 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        out = np.empty((np.size(self.idx_neq),)+sigma.shape[1:], complex)
+        for idx in np.ndindex(*sigma.shape[1:]): # spin (if any), frequency
+            x = self.free(z[idx[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[(slice(None),)+idx][self.idx_inv]
+            out[(slice(None),)+idx] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From 73fe81fd31ddc2a6854d8ff30c4ab9953e9684fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 30/43] fix: SpinGfimp.integrate works with its default
 chemical potential

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..6825a91 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 6af994e22afd7554f08e09e67f5eae280f0c6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 31/43] fix: non-causal hybridisation is really made causal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 6825a91..7aa1d2e 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From b7ddddabbed0b386a0c9f8c0b5ecfe2b340e6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 32/43] fix: DMFT loop runs without an occupancy goal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 7aa1d2e..bdfdd59 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -433,7 +433,7 @@ class DMFT:
             occp = self.gfloc.integrate(self.gfloc.mu)
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
-            occp = self.occupancy_goal
+            occp = np.nan if self.occupancy_goal is None else self.occupancy_goal
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From 9684fa4ede5622e53bc1f63d3f7f24c009bb3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 33/43] fix: array chemical potentials in integrate_gf keep
 their Fermi poles

---
 edpyt/integrate_gf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..d71c9d6 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -82,9 +82,8 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
     if np.isscalar(mu):
         a_p = mu + 1j*zp/beta
     else:
-        mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
-        a_p = mu + 1j*zp/beta
+        mu = np.asarray(mu)
+        a_p = mu + 1j*zp.reshape((nzp,)+(1,)*mu.ndim)/beta
 
     R = 1e10
     mu_0 = 1j*R*gf(1.j*R)
-- 
2.43.0


From 03fdbd939f5f58e59a92742d49181c701fe0de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 34/43] fix: siam_solve does not add the old contents of the
 self-energy buffer

---
 edpyt/dedlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..451f038 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -228,6 +228,8 @@ def siam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
-- 
2.43.0


From a3b7e22cfd48da67bfd791d1f190612138382d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 35/43] fix: ded_solve does not add the old contents of the
 self-energy buffer

---
 edpyt/dedlib_dev.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1f44cc3..3c00472 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -252,6 +252,8 @@ def ded_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
-- 
2.43.0


From 489f7302832cd9333cf55c912f763330767840cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 36/43] fix: moam_solve does not add the old contents of the
 self-energy buffer

---
 edpyt/dedlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 451f038..b61746c 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -328,6 +328,8 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros((nimp,z.size),complex)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
-- 
2.43.0


From 61c3afd75d2c57e6ba52c8c47e979ad1b5063512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 37/43] fix: moam_solve accepts the scalar interaction it
 defaults to

---
 edpyt/dedlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index b61746c..8139b34 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -339,6 +339,9 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
+    if np.isscalar(U):
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     if isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
-- 
2.43.0


From cc66c362ebee11f697ba26c2d21a80a1ea6a89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 38/43] fix: ded_solve_multi accepts the scalar interaction it
 defaults to

---
 edpyt/dedlib_dev.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 3c00472..4673f95 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -380,6 +380,9 @@ def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8,
     if isinstance(U, np.ndarray):
         V1 = V0.copy()
         V1[:nimp,:nimp] = U
+    if np.isscalar(U):
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     if isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
-- 
2.43.0


From 858909815faaea3195589727e75273e085f22d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 39/43] fix: moam_solve averages each impurity over its own
 accepted samples

---
 edpyt/dedlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 8139b34..baf94d3 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -333,6 +333,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
+    Q = np.zeros(nimp)               # # of accepted samples of each impurity
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
@@ -393,11 +394,14 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     sigma[i] += np.reciprocal(gf0[i](z))-np.reciprocal(gf(z.real,z.imag))
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
+                    Q[i] += 1
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    # An impurity may be accepted more or less often than N times (also never).
+    Q = np.where(Q > 0, Q, 1)
+    sigma /= Q[:,None]
+    imp_occp0 /= Q
+    imp_occp1 /= Q
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From 1b418fd5da95d6a6f799851fd9b64e5005ebfb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 40/43] fix: bath hybridisation at a single frequency, as the
 occupation integral asks for

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index bdfdd59..b410caf 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,7 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        return _delta(self.x, np.atleast_1d(z))
 
 
 class Gfimp:
-- 
2.43.0


From 374fd608ee3426490c846f161c7e45223af5bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 41/43] fix: sector dimensions are whole numbers (binom(31,14)
 came out one short)

---
 edpyt/sector.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edpyt/sector.py b/edpyt/sector.py
index e7ffbec..b478734 100644
--- a/edpyt/sector.py
+++ b/edpyt/sector.py
@@ -3,7 +3,7 @@ import numpy as np
 from numba import njit
 
 # Binomial coefficient
-from scipy.special import binom
+from scipy.special import binom as _binom
 
 # Unsigned dtype
 from edpyt.shared import (
@@ -11,6 +11,13 @@ from edpyt.shared import (
 )
 
 
+def binom(n, p):
+    """Binomial coefficient, rounded to the integer it stands for.
+
+    """
+    return np.rint(_binom(n, p))
+
+
 class OutOfHilbertError(ValueError):
     pass
 
-- 
2.43.0


From 53f4f2cff12c72ed498a4e278944bf0c0e340a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 42/43] fix: sector dimensions beyond 2**53 are exact

---
 edpyt/sector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/sector.py b/edpyt/sector.py
index b478734..e237781 100644
--- a/edpyt/sector.py
+++ b/edpyt/sector.py
@@ -41,7 +41,7 @@ def get_sector_dim(n, nup, ndw):
 
     """
     # return binom(n, p)
-    return int(binom(n, nup)*binom(n, ndw))
+    return int(binom(n, nup))*int(binom(n, ndw))
 
 # @njit('uint32[:](int64,int64)')
 def generate_states(n, p):
-- 
2.43.0


From 633acbde39e37e3cf2199ca45a01087e54d2239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 43/43] fix: cotunnelling paths that exist in neither direction
 are left out instead of crashing

---
 edpyt/cotunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index bacb6b6..febb623 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -146,11 +146,11 @@ def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
         try:
             gf2elist = project_add(ispin_i, ispin_j, n, nupI, ndwI, espace)
         except OutOfHilbertError:
-            gf2elist = (None,)
+            gf2elist = ()
         try:
             gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
         except OutOfHilbertError:
-            gf2hlist = (None,)
+            gf2hlist = ()
         sigmalist.extend([Sigma(gf2e,gf2h)
                           for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
     for sigma in sigmalist:
-- 
2.43.0

