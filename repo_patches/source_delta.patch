From 5048ad143c34b4197782c918d5bbfe2dcea182fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 01/56] fix: exact integer binomials for sector dimensions and
 bases

---
 edpyt/espace.py | 2 +-
 edpyt/sector.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/edpyt/espace.py b/edpyt/espace.py
index 075ebfe..5e0b7ba 100644
--- a/edpyt/espace.py
+++ b/edpyt/espace.py
@@ -95,7 +95,7 @@ def get_espace_dim(n, neig_max=None, symmetry='sz'):
     
     elif symmetry.upper() == 'N':
         neig_sector = np.zeros(2*n+1, int)
-        for ndu in np.ndindex(2*n+1):
+        for ndu in range(2*n+1):
             neig_sector[ndu] = binom(2*n,ndu)
     
     else:
diff --git a/edpyt/sector.py b/edpyt/sector.py
index e7ffbec..199acef 100644
--- a/edpyt/sector.py
+++ b/edpyt/sector.py
@@ -3,7 +3,7 @@ import numpy as np
 from numba import njit
 
 # Binomial coefficient
-from scipy.special import binom
+from math import comb
 
 # Unsigned dtype
 from edpyt.shared import (
@@ -15,6 +15,11 @@ class OutOfHilbertError(ValueError):
     pass
 
 
+def binom(n, k):
+    """Exact binomial coefficient (zero outside 0<=k<=n)."""
+    return comb(n, k) if 0 <= k <= n else 0
+
+
 @njit('void(uint32[:])')
 def permutations(states):
     """Generate all permutations of initial bit pattern.
-- 
2.43.0


From a8b87cbe7db755df390ca43910dff29c7398b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 02/56] fix: intrep is the inverse of binrep (level 0 first)

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From d0de5d164215bf1a4ba8ea9cb118388c01d82ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 03/56] fix: todense of a Hamiltonian made of diagonal
 operators only

---
 edpyt/matvec_product.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..2b7344a 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,10 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    if ops:
+        out = ops.pop().todense()
+    else: # only diagonal operators
+        out = np.zeros((diag_op[0].size,)*2)
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From 5fffd399c3192dc768b47e1f9f1618af357f1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 04/56] fix: pair hopping without spin exchange in sz sectors

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From 7bc3c9d05bf1bc7c905405dc97cb4f1516fa633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 05/56] fix: spin-dependent level energies with N symmetry

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..e22f4a7 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += eupdiag[i]*nup[i] + edwdiag[i]*ndw[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From 6f7bc6b1217ae360442155556ea0920223b7c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 06/56] fix: interaction given without a density-density part

---
 edpyt/build_mb_ham.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..299d575 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -49,6 +49,8 @@ def build_mb_ham(H, V, sct, comm=None):
         U = V.get('U',None)
         Jx = V.get('Jx', None)
         Jp = V.get('Jp', None)
+        if U is None: # no density-density interaction
+            U = np.zeros((n,n))
     # dup = states_up.size
     # dwn = states_dw.size
     # if comm is not None:
-- 
2.43.0


From 0baa8834164d742e390bd4e5f46cd8107fc89e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 07/56] fix: sign of the spin-flip part of the exchange
 interaction in sz sectors

---
 edpyt/ham_non_local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..083525f 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -113,6 +113,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
                 #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij Jx_ij [c^+_iup c_jup] [c^+_jdw c_idw]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +125,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 42cc255c747aedce2c823586c15434e44124d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 08/56] fix: matvec operator with a supplied output vector

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 2b7344a..f14ae7d 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From 03ccec187c008ffd2d348a46fea074d0f68fc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 09/56] fix: exact Green's function of the down spin adds a
 down electron

---
 edpyt/gf_exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..6922b4d 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -110,11 +110,11 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
+        # N+1 (one more up or down spin)
+        nupJ = nupI+(ispin==0)
+        ndwJ = ndwI+(ispin==1)
         # Cannot have more spin than spin states
-        if nupJ > n: continue
+        if nupJ > n or ndwJ > n: continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From 45200c269416ea2607b071113b6896038df2ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 10/56] fix: building the Lanczos Green's function must not
 replace the kept eigenstates

---
 edpyt/gf_lanczos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..6654b3c 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # Do not touch the (possibly truncated) sector in espace
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +218,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # Do not touch the (possibly truncated) sector in espace
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From 4e8917b6d595d45faa67d23142dbaeeabdc850f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 11/56] fix: off-diagonal Lanczos function when the combined
 excitation annihilates a state

---
 edpyt/gf2_lanczos.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5aee7b5 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -1,6 +1,7 @@
 import numpy as np
 from functools import lru_cache
 from edpyt.gf_lanczos import *
+from edpyt.lanczos import ZeroNormInitialVector
 
 # Not automatically imported by gf_lanczos
 _reprs = ['cf','sp']
@@ -89,7 +90,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +114,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From dc727fff8d139aa54ce51d673d12d0d5a5296de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 12/56] fix: counting occupations must not reshape the caller's
 eigenvectors

---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..06469b9 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 1eb95a0db9c2f96a8703995b89279338234725f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 13/56] fix: index-range tridiagonal solver for a single level

---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..fac70cc 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -13,6 +13,8 @@ gs_tridiag = lambda a, b: _solve_partial(a,b)
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     il = select_range[0] + 1
     iu = select_range[1] + 1
+    if a.size == 1: # stebz wrapper needs at least one off-diagonal
+        return np.array(a), None if eigvals_only else np.ones((1,1))
     order = 'E' if eigvals_only else 'B'
     m, w, iblock, isplit, info = stebz(a,b,2,0.,1.,il,iu,0.,order)
     w = w[:m]
-- 
2.43.0


From f4f30d5feb34490056d1dac3ed29ee6fff4a1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 14/56] fix: ascending eigenvalues of a split tridiagonal
 matrix in an index range

---
 edpyt/tridiag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index fac70cc..7e5bcfc 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -21,7 +21,8 @@ def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     if eigvals_only:
         return w, None
     v, info = stein(a,b,w,iblock,isplit)
-    return w, v[:, :m]
+    idx = np.argsort(w) # order='B' sorts block by block
+    return w[idx], v[:, :m][:, idx]
 
 
 def _solve_full(a, b, eigvals_only=False):
-- 
2.43.0


From 625904552c51aa0706f2a89174f11c2c3b9ee07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 15/56] fix: second Lanczos pass with eigenvalues only

---
 edpyt/lanczos.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..f8f71e6 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,10 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
-    else:
-        assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
+    assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From 9e17d3c37dc3c36ee0b1136dc19253c3bd3e37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 16/56] fix: deflate linearly dependent candidates above
 rounding level in block Lanczos

---
 edpyt/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index f8f71e6..cf278e4 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -206,7 +206,7 @@ def gram_schmidt_columns(X):
     return Q
 
 
-def build_bd_tridiag(matvec, phi0, maxn=300, delta=1e-15, tol=1e-10, ND=10):
+def build_bd_tridiag(matvec, phi0, maxn=300, delta=1e-10, tol=1e-10, ND=10):
     '''Build tridiagonal coeffs. with simple Lanczos method.
 
     Args:
-- 
2.43.0


From acb3c6feba768e3009e79bc23c1617e53ede492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 17/56] fix: block Lanczos must not write initial norms into
 the last columns of the projection

---
 edpyt/lanczos.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index cf278e4..cbf1c57 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -250,12 +250,14 @@ def build_bd_tridiag(matvec, phi0, maxn=300, delta=1e-10, tol=1e-10, ND=10):
             if len(vl)>Lc: # Eliminate v[n-Lc] from list of previous Lanc. vectors.
                 vl.pop(0)
             continue # Go to b = norm(v[0]).
-        T[n,n-Lc] = b # v become new Lanc. vector.
+        if n>=Lc: # Do not wrap around for the initial vectors.
+            T[n,n-Lc] = b # v become new Lanc. vector.
         v /= b
         vk.pop(0) # Eliminate v from candidates. k->k+1
         for k0, k in enumerate(range(n+1,n+Lc)): # Orthogonalize next candidates against v.
-            T[n,k-Lc] = v.dot(vk[k0])
-            vk[k0] -= T[n,k-Lc]*v
+            coeff = v.dot(vk[k0])
+            if k>=Lc: T[n,k-Lc] = coeff
+            vk[k0] -= coeff*v
         w = matvec(v) # New candidate vector.
         for k0, k in enumerate(range(max(0,n-Lc),n)): # Orthogonalize against previous (n-Lc) Lanc. vectors.
             T[k,n] = np.conj(T[n,k])
-- 
2.43.0


From 1ac2b175a7108dd7daac608d1d8e8baecfdcbd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 18/56] fix: contour integration with one chemical potential
 per component

---
 edpyt/integrate_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..1427dd8 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -82,8 +82,8 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
     if np.isscalar(mu):
         a_p = mu + 1j*zp/beta
     else:
-        mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
+        # One pole per leading entry, for all the components of mu.
+        zp = zp.reshape((nzp,)+(1,)*mu.ndim)
         a_p = mu + 1j*zp/beta
 
     R = 1e10
-- 
2.43.0


From 110402ec671f5cefc32f868afa0ad895953d389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 19/56] fix: cotunneling integrals at zero and tiny bias

---
 edpyt/integrals.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..14e2733 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -16,12 +16,9 @@ def Psi(n, a, b, beta):
     return polygamma(n, 0.5 + (1.j*beta)/(2.*np.pi)*(a-b))
 
 
-def Taylor(n, x, a, b, beta):
-    k = Psi(n, a, b, beta)
-    return k / x \
-           - 0.5 * k \
-           + 1/12 * x * k \
-           - 1/720 * x**3 * k
+def xnB(x):
+    """Bose distribution times its argument (regular at x=0)."""
+    return 1. if x==0. else x/np.expm1(x)
 
 # fmax = 1e15
 # fmin = 1/fmax
@@ -35,13 +32,10 @@ nB = lambda x: 1./(np.exp(x)-1)
 
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
-    if abs(x) < 1e-16:
-        return 0. #np.sign(x)
-    if abs(x) < 1e-15:
-        return C**2 * beta/(2*np.pi) * np.imag(
-            Taylor(1,x,mu[1],eps,beta)
-          - Taylor(1,x,mu[0],eps,beta)
-        )        
+    if abs(x) < 1e-4: # nB -> oo, difference -> 0: use the derivative.
+        return C**2 * beta/(2*np.pi)**2 * xnB(x) * np.real(
+            Psi(2,0.5*(mu[0]+mu[1]),eps,beta)
+        )
     return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
             Psi(1,mu[1],eps,beta)
           - Psi(1,mu[0],eps,beta)
@@ -62,14 +56,11 @@ def I1(C, eps, mu, beta):
 
 def I2(A, B, epsA, epsB, mu, beta):
     x = (mu[1]-mu[0])*beta
-    if abs(x) < 1e-16:
-        return 0. # -1.
-    if abs(x) < 1e-15:
-        return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+    if abs(x) < 1e-4: # nB -> oo, difference -> 0: use the derivative.
+        m = 0.5*(mu[0]+mu[1])
+        return A * B * xnB(x) / (2*np.pi*(epsA-epsB)) * np.imag(
+              Psi(1,epsA,m,beta)
+            - Psi(1,epsB,m,beta)
         )
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
-- 
2.43.0


From 70386b73cc68d6c8a8c58cf6b10beb97041a4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 20/56] fix: interference term of the cotunneling integrals
 counts twice

---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 14e2733..14d3d14 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -93,7 +93,7 @@ Gamma1 = I1
 def Gamma2(A, B, epsA, epsB, mu, beta):
     return I1(A,epsA,mu,beta) \
          + I1(B,epsB,mu,beta) \
-         + I2(A,B,epsA,epsB,mu,beta)
+         + 2*I2(A,B,epsA,epsB,mu,beta) # |a+b|^2 = a^2 + b^2 + 2ab
 
 
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
-- 
2.43.0


From 091402eb474f8ddb671b865cf631330adfc81c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 21/56] fix: cotunneling integrals of degenerate virtual states

---
 edpyt/integrals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 14d3d14..d4de64f 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -55,6 +55,8 @@ def I1(C, eps, mu, beta):
     # return w * f
 
 def I2(A, B, epsA, epsB, mu, beta):
+    if abs(epsA-epsB) * beta < 1e-4: # degenerate poles.
+        return A * B * I1(1.,0.5*(epsA+epsB),mu,beta)
     x = (mu[1]-mu[0])*beta
     if abs(x) < 1e-4: # nB -> oo, difference -> 0: use the derivative.
         m = 0.5*(mu[0]+mu[1])
-- 
2.43.0


From b98d638c22852c496c638c52a7fe9edfd12d498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 22/56] fix: stationary solution of a rate matrix belongs to
 its zero eigenvalue

---
 edpyt/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/rates.py b/edpyt/rates.py
index ad787a0..549cd49 100644
--- a/edpyt/rates.py
+++ b/edpyt/rates.py
@@ -11,7 +11,7 @@ def stationary_solution(W):
     """
     w, v = np.linalg.eig(W)
 
-    j_stationary = np.argmin(abs(w - 1.0))
+    j_stationary = np.argmin(abs(w))
     p_stationary = v[:,j_stationary].real
     p_stationary /= p_stationary.sum()
     return p_stationary
-- 
2.43.0


From 29c753d4aba42967c73319113273c9c5a943c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 23/56] fix: charge-sector sequential tunneling to and from the
 empty and full system

---
 edpyt/sqtnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From 3f6f0aff70548f2fb482d7049db01ab54b6110a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 24/56] fix: charge-sector cotunneling through the empty and
 full system

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..673fb3a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
-- 
2.43.0


From c300df050442af35de5f7228c8fa5ae695946e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 25/56] fix: sectors without a spin-exchange cotunneling
 process

---
 edpyt/cotunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..3d7020f 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -146,11 +146,11 @@ def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
         try:
             gf2elist = project_add(ispin_i, ispin_j, n, nupI, ndwI, espace)
         except OutOfHilbertError:
-            gf2elist = (None,)
+            gf2elist = () # no virtual state
         try:
             gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
         except OutOfHilbertError:
-            gf2hlist = (None,)
+            gf2hlist = () # no virtual state
         sigmalist.extend([Sigma(gf2e,gf2h)
                           for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
     for sigma in sigmalist:
-- 
2.43.0


From c4b4228125eb595b6bafa6a07103a0e031d554f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 26/56] fix: approximate cotunneling rate at zero energy gain
 is proportional to the temperature

---
 edpyt/cotnl.py       | 6 +++---
 edpyt/cotunneling.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 673fb3a..4c46ad3 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -209,11 +209,11 @@ nF.__doc__ = "Fermi function."
 
 def G(beta, z):
     """Helper function for approximate solution."""
-    if (beta*abs(z))<1e-18:
-        return 1.
+    if z==0.:
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 3d7020f..ce2e591 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -229,11 +229,11 @@ class _Sigma:
     @staticmethod
     def G(beta, z):
         """Helper function for approximate solution."""
-        if (beta*abs(z))<1e-18:
-            return 1.
+        if z==0.:
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From 7b562fe48106e0604bf12665dcbfa935f990e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 27/56] fix: inelastic cotunneling amplitudes at the energy of
 the outgoing electron (detailed balance)

---
 edpyt/cotnl.py       | 4 ++--
 edpyt/cotunneling.py | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 4c46ad3..71a6fa8 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -151,7 +151,7 @@ class Gf2:
     """Green's function.
     
     Args:
-        E : (E+ - En') or (En' - E-)
+        E : (E+ - En) or (En' - E-)
         v_FJ : <n|c+|m-> or <n|c|m+>
         v_JI : <m-|c|n'> or <m+|c+|n'>
         dE = En-En'
@@ -244,7 +244,7 @@ class Sigma:
     def approximate(self, A, extract, inject, beta, mu):
         x = self.dE-mu[extract]+mu[inject]
         # return G(beta, x) * self(0.5*x, A, extract, inject)
-        return G(beta, x) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+        return G(beta, x) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
     
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index ce2e591..c08211d 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -71,10 +71,11 @@ def project_add(ispin_i, ispin_j, n, nupI, ndwI, espace):
     for i in range(n):
         v_FJ[...,i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
     dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
-    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
+    # Energy is counted from the outgoing electron (as for holes, see integrate).
+    E = sctJ.eigvals[None,:]-sctF.eigvals[:,None]
     gf2elist = []
     for f,i in np.ndindex(v_FJ.shape[0],v_JI.shape[1]):
-        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ)))
+        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[f],dE[f,i],(nupJ,ndwJ)))
     return gf2elist
 
 
@@ -188,7 +189,7 @@ class Gf2:
     """Green's function.
     
     Args:
-        E : (E+ - En') or (En' - E-)
+        E : (E+ - En) or (En' - E-)
         v_FJ : <n|c+|m-> or <n|c|m+>
         v_JI : <m-|c|n'> or <m+|c+|n'>
         dE = En-En'
@@ -237,7 +238,7 @@ class _Sigma:
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-               ) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+               ) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
               
 
 class _Sigmae(_Sigma):
-- 
2.43.0


From c78e2c1fad0ee2acaab1ba8c5a505006d3df76ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 28/56] fix: integrated cotunneling rates include every virtual
 state

---
 edpyt/cotunneling.py | 24 ++++++++++++------------
 edpyt/integrals.py   |  7 +++++++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index c08211d..6e3cb61 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -4,7 +4,7 @@ from itertools import zip_longest
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import Gamma1, Gamma2
+from edpyt.integrals import Gamma
 
 from edpyt.sector import (
     OutOfHilbertError, get_c_sector, get_cdg_sector)
@@ -248,9 +248,9 @@ class _Sigmae(_Sigma):
     #  |  e     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[inject].dot(self.gf2.vF[0])*A[extract].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[inject].dot(self.gf2.vF.T)*A[extract].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
@@ -265,9 +265,9 @@ class _Sigmah(_Sigma):
     #  |  h     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[extract].dot(self.gf2.vF[0])*A[inject].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[extract].dot(self.gf2.vF.T)*A[inject].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
     
     def __call__(self, z, A, extract, inject):
@@ -296,11 +296,11 @@ class Sigma(_Sigma):
         super().__init__(self.gf2e)
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma2(
-            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
-            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
-            self.gf2e.E[0], # epsA
-            self.gf2h.E[0], # epsB
+        return Gamma(
+            np.r_[A[inject].dot(self.gf2e.vF.T)*A[extract].dot(self.gf2e.vI.T), #A
+                  A[extract].dot(self.gf2h.vF.T)*A[inject].dot(self.gf2h.vI.T)], #B
+            np.r_[self.gf2e.E, # epsA
+                  self.gf2h.E], # epsB
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index d4de64f..ac97461 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -98,6 +98,13 @@ def Gamma2(A, B, epsA, epsB, mu, beta):
          + 2*I2(A,B,epsA,epsB,mu,beta) # |a+b|^2 = a^2 + b^2 + 2ab
 
 
+def Gamma(A, eps, mu, beta):
+    """Any number of terms, i.e. |A1/(E-eps1) + A2/(E-eps2) + ... |^2."""
+    return sum(I1(a,e,mu,beta) for a, e in zip(A,eps)) \
+         + sum(2*I2(A[i],A[j],eps[i],eps[j],mu,beta) 
+               for i in range(len(A)) for j in range(i))
+
+
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
     return Gamma2(A,B,epsA,epsB,mu,beta) \
          + Gamma2(A,C,epsA,epsC,mu,beta) \
-- 
2.43.0


From 9d1818061c77600e57e7b3d752cd1471acfdb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 29/56] fix: states requested for cotunneling stay inside the
 space

---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 6e3cb61..5c992d9 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -395,7 +395,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if 0<=nup<=n and 0<=ndw<=n]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From d358d75427bee72b83ccad37d65abe86329c5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 30/56] fix: squared cotunneling amplitudes at several energies

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 5c992d9..09f24a1 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -213,7 +213,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From bde652644b3e8f9aecad50a6c9800b96a684f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 31/56] fix: unused imports of packages cotnl does not need

---
 edpyt/cotnl.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 71a6fa8..59aa8f7 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -1,14 +1,9 @@
-from functools import lru_cache
-from numba.core.decorators import njit
 import numpy as np
 from numba import vectorize
 from itertools import product
 from collections import defaultdict
 from operator import attrgetter
 
-from numpy.lib.function_base import extract
-from traitlets.traitlets import default
-
 from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4
 from edpyt.lookup import binsearch
 from edpyt.operators import cdg, c
-- 
2.43.0


From 843e661e88efe99832b481b5953d6cfb06763722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 32/56] fix: Fermi factors of the numerical cotunneling
 integral

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 59aa8f7..c61e123 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -260,8 +260,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From 80675ce054d0a4ce1221840abaf756097bbb4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 33/56] fix: closed-form cotunneling integral: position of the
 poles, any number of virtual states

---
 edpyt/cotnl.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index c61e123..1feaae8 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -4,7 +4,7 @@ from itertools import product
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4
+from edpyt.integrals import Gamma
 from edpyt.lookup import binsearch
 from edpyt.operators import cdg, c
 from edpyt.sector import OutOfHilbertError
@@ -244,15 +244,8 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
-        if len(Y) == 1:
-            return Gamma1(*Y,*E,mu,beta)
-        elif len(Y) == 2:
-            return Gamma2(*Y,*E,mu,beta)
-        elif len(Y) == 4:
-            return Gamma4(*Y,*E,mu,beta)
-        else:
-            raise NotImplementedError("Integral with {len(Y)} terms not yet implemented.")
+        E = [E for gf in self.gf2 for E in gf.E]
+        return Gamma(Y, E, mu, beta)
 
     def integrate(self, A, extract, inject, beta, mu):
         mu_extract = mu[extract] - self.dE
-- 
2.43.0


From 320d29fb5a1a15dd88ae96e56a3905c2d740fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 34/56] fix: screening of cotunneling processes must not depend
 on uniform lead couplings

---
 edpyt/cotnl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 1feaae8..36079dd 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -320,16 +320,15 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
-    n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
-    A = np.ones((2,n))
     screened = {}
     for (idF,idI), sigmalist in sigmadict.items():
         sigmas = []
         for sigma in sigmalist:
             gfs = []
             for gf in sigma.gf2:
-                y = gf.y(A, 1, 0)
-                nnz_idx = np.abs(y) > 1e-10
+                # Largest contribution for any (unit) coupling to the leads.
+                y = np.linalg.norm(gf.vF,axis=1)*np.linalg.norm(gf.vI,axis=1)
+                nnz_idx = y > 1e-10
                 if any(nnz_idx):
                     gfs.append(gf)
                     gf.vF = gf.vF[nnz_idx,:]
-- 
2.43.0


From 3183b1add4a778ea0b8aa6a5eb88cb5cded21d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 35/56] fix: rate matrix of cotunneling keeps states without
 inelastic processes

---
 edpyt/cotnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 36079dd..58b5213 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -297,6 +297,8 @@ def build_rate_and_transition_matrices(sigmadict, beta, mu, A, extract, inject,
         # if idF[1] != idI[1]:
             W[idI,idI] -= gamma.sum()
             W[idF,idI] += gamma.sum()
+        else: # State without transitions to other states.
+            W[idI,idI] += 0.
         T[idF,idI] += gamma[extract,inject] - gamma[inject,extract]
     if build_matrices:
         return map(lambda D: dict_to_matrix(D), [W,T])
-- 
2.43.0


From c95d56e371bd18c53c447893e9716043c6b41ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 36/56] fix: pole sampling with random numbers close to one

---
 edpyt/dedlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..26a78bb 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -54,6 +54,7 @@ class RandomSampler:
         cdf = p(self.eners)
         cdf /= cdf.sum()
         cumsum(cdf)
+        cdf /= cdf[-1] # exactly one: any random number falls in the range.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
-- 
2.43.0


From 2ca37081c2080f004f0d5e4acdfce948846fd22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 37/56] fix: multi-orbital distributional solver with a single
 interaction strength

---
 edpyt/dedlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 26a78bb..0cea888 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -336,10 +336,13 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
-    if isinstance(U, dict):
+    elif isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    else:                            # same on-site repulsion for all orbitals.
+        V1 = V0.copy()
+        V1[:nimp,:nimp] = U*np.eye(nimp)
     nbath = (n-nimp)//nimp          # # of bath sites per impurity.
     subsystem_pos = np.zeros((nimp,nbath+1),int) # site indices fo each subsytem.
     for i in range(nimp):
-- 
2.43.0


From 3e241ad12ca58e66b0cf019aa1fd57c0623579a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 38/56] fix: multi-orbital averages over the samples accepted
 for each impurity

---
 edpyt/dedlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 0cea888..5464e0b 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -330,6 +330,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
+    accepted = np.zeros(nimp,int)    # samples fulfilling the DED condition
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
@@ -390,11 +391,14 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     sigma[i] += np.reciprocal(gf0[i](z))-np.reciprocal(gf(z.real,z.imag))
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
+                    accepted[i] += 1
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    # Average over the samples accepted for each impurity.
+    accepted = np.maximum(accepted, 1)
+    sigma /= accepted[:,None]
+    imp_occp0 /= accepted
+    imp_occp1 /= accepted
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From a74688ff0f90b67d433ae2992a5ccdd03942452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 39/56] fix: C initial bath with three levels left the middle
 level unset

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From 444da57764e3362e0fa1bc179fdcfc8628a94772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:38 +0000
Subject: [PATCH 40/56] fix: C bath fit ended the calling process when out of
 iterations

---
 edpyt_backend/dbrent.c | 5 +++--
 edpyt_backend/frprmn.c | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 7d1d8ab..8d22b6f 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -90,6 +90,7 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			}
 		}
 	}
-	nrerror("Too many iterations in routine dbrent");
-	return 0.0;
+	/* Not converged : return the best minimum so far. */
+	*xmin = x;
+	return fx;
 }
diff --git a/edpyt_backend/frprmn.c b/edpyt_backend/frprmn.c
index ca16f5b..c2eaa18 100644
--- a/edpyt_backend/frprmn.c
+++ b/edpyt_backend/frprmn.c
@@ -57,5 +57,6 @@ void frprmn(double p[], int n, double ftol, int *iter, double *fret,
             xi[j]=h[j]=g[j]+gam*h[j];
         }
     }
-    nrerror("Too many iterations in frprmn");
+    /* Not converged : p holds the best minimum so far and *iter = ITMAX. */
+    FREEALL
 }
\ No newline at end of file
-- 
2.43.0


From 2ab6f7438b07f54b85a2117c7145e7145d85bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 41/56] fix: ctypes bath fit started from uninitialised memory

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..d9a9b21 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -11,11 +11,16 @@ fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 474b157bbf7afa13a6029386f598f0bef7165097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 42/56] fix: impurity hybridisation at a scalar frequency
 (integrate failed)

---
 edpyt/dmft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..bf61bac 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,8 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        # _delta needs at least one dimension.
+        return _delta(self.x, np.atleast_1d(z)).reshape(np.shape(z))
 
 
 class Gfimp:
-- 
2.43.0


From 625062ff79d6db94649f51e8d2cbeea57cc079a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 43/56] fix: spin-resolved impurity integrate() crashed with
 its default chemical potential

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index bf61bac..59fe6a3 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -253,7 +253,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 01770df5ab4198f2c6e1fa4d638067dab9690030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 44/56] fix: Bethe-lattice Hilbert transform of several
 frequencies

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 59fe6a3..98ad18b 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -292,7 +292,7 @@ class Gfloc:
 # Analytical Bethe lattice
 _ht = lambda z: 2 * (z - 1j * np.sign(z.imag) * np.sqrt(1 - z ** 2))
 eps = 1e-20
-ht = lambda z: _ht(z.real + 1.0j * (z.imag if z.imag > 0.0 else eps))
+ht = lambda z: _ht(z.real + 1.0j * np.where(z.imag > 0.0, z.imag, eps))
 
 
 class Gfhybrid(Gfloc):
-- 
2.43.0


From ca1b6dbdb1dabf208ad44310975749c849773e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:29 +0000
Subject: [PATCH 45/56] fix: self-consistency loop needs the level of the
 lattice Green's function

---
 edpyt/dmft.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 98ad18b..311fc31 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -268,6 +268,8 @@ class Gfloc:
     """Parent local green's function.
     """
 
+    ed = 0.0  # local level
+
     def update(self, mu):
         """Update chemical potential."""
         self.mu = mu
@@ -278,10 +280,10 @@ class Gfloc:
 
     def Delta(self, z):
         """Hybridization."""
-        #                               -1
-        # Delta(z) = z+mu - Sigma(z) - g (z)
+        #                                    -1
+        # Delta(z) = z+mu - ed - Sigma(z) - g (z)
         #
-        return z + self.mu - self.Weiss(z)
+        return z + self.mu - self.ed - self.Weiss(z)
 
     def Weiss(self, z):
         """Weiss filed."""
-- 
2.43.0


From b44d129436a543fd7411104239043ea45eca01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 46/56] fix: self-consistency loop crashed without an occupancy
 goal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 311fc31..affd80c 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -436,7 +436,7 @@ class DMFT:
             occp = self.gfloc.integrate(self.gfloc.mu)
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
-            occp = self.occupancy_goal
+            occp = np.nan if self.occupancy_goal is None else self.occupancy_goal
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From 87f559e1c012eef143d28be47b56612ba810c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:43 +0000
Subject: [PATCH 47/56] fix: non-causal hybridisations were not made causal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index affd80c..8cb358d 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -448,7 +448,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From a4d8722cf9df9e5fedf28968af205dbb5cdaf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 48/56] fix: chemical-potential adjustment to a plain number

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 8cb358d..9a4e29f 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -19,7 +19,7 @@ def adjust_mu(gf, occupancy_goal, bracket=(-20.0, 20)):
     the change in mu required to satisfy the occupancy goal.
     """
     # distance = lambda mu: np.sum(gf.integrate(mu)-occupancy_goal)
-    distance = lambda mu: gf.integrate(mu).sum() - occupancy_goal.sum()
+    distance = lambda mu: np.sum(gf.integrate(mu)) - np.sum(occupancy_goal)
     return root_scalar(distance, bracket=bracket, method="brentq").root  # + gf.mu
 
 
-- 
2.43.0


From a09faf2f1bd9092f9e6d2dba24306afac454a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 49/56] fix: Bethe-lattice Hilbert transform lost all digits at
 large frequencies

---
 edpyt/dmft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 9a4e29f..88e2dd9 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -292,7 +292,8 @@ class Gfloc:
 
 
 # Analytical Bethe lattice
-_ht = lambda z: 2 * (z - 1j * np.sign(z.imag) * np.sqrt(1 - z ** 2))
+# NOTE : 2 / (z + ...) equals 2 * (z - ...) and does not cancel at large z.
+_ht = lambda z: 2 / (z + 1j * np.sign(z.imag) * np.sqrt(1 - z ** 2))
 eps = 1e-20
 ht = lambda z: _ht(z.real + 1.0j * np.where(z.imag > 0.0, z.imag, eps))
 
-- 
2.43.0


From c6d8b4d63423034cad226477b6d316c23a235cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 50/56] fix: local Green's function of any grouping of
 equivalent sites

---
 edpyt/nano_dmft.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..9e8d56e 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,13 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        out = np.empty(self.idx_neq.shape+sigma.shape[1:], complex)
+        for i in np.ndindex(sigma.shape[1:]): # last axis is z
+            sigma_, z_ = sigma[(slice(None),)+i], z[i[-1]]
+            x = self.free(z_, inverse=True)
+            x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
+            out[(slice(None),)+i] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From 9b5296d6db8a3b2b63b104d34928a13199a3dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 51/56] fix: full tridiagonal solver ignored a failed
 convergence

---
 edpyt/tridiag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 7e5bcfc..ab564d1 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -5,6 +5,7 @@ stebz = get_lapack_funcs('stebz', dtype=np.float64)
 stein = get_lapack_funcs('stein', dtype=np.float64)
 stemr = get_lapack_funcs('stemr', dtype=np.float64)
 stemr_lwork = get_lapack_funcs('stemr_lwork', dtype=np.float64)
+stev = get_lapack_funcs('stev', dtype=np.float64)
 
 
 egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,b,2,0.,1.,1,1,0.,'E')[1][0]
@@ -31,6 +32,8 @@ def _solve_full(a, b, eigvals_only=False):
     compute_v = not eigvals_only
     lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
     m, w, v, info = stemr(a,b_,0,0.,1.,1,1,compute_v=compute_v,lwork=lwork,liwork=liwork)
+    if info: # no convergence with elements of very different size
+        w, v, info = stev(a,b,compute_v=compute_v)
     return w, v
 
 
-- 
2.43.0


From 866fd2b5313cbcbe606cfd1885f1f0eff774ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 52/56] fix: print eigenspaces of spin-resolved sectors

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From 0ad59035ddbbc211f184766ade940f578ccea073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 53/56] fix: elements below the diagonal of the matrix Green's
 function crashed

---
 edpyt/gf2_lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5aee7b5..9cef25f 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -28,7 +28,7 @@ class _Gf2():
         return G
     
     def __getitem__(self, ij):
-        i,j = ij
+        i,j = sorted(ij) # only the upper triangle is stored.
         if i==j:
             return self.gf[i,j]
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
-- 
2.43.0


From a2bdece80f45cff1140a6e3c48c01802d36c1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 54/56] fix: a Hamiltonian that is read-only crashed the build,
 a spin resolved one was made writeable

---
 edpyt/build_mb_ham.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index 299d575..4ee18f6 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,7 +38,8 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
+    # Read-only view, the array of the caller is left as it is.
+    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H.view()
     H.flags.writeable = False
 
     if isinstance(V, np.ndarray):
@@ -73,8 +74,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 64c7708a573ee2fc5fb5251fbe2fed842128caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 55/56] fix: drawing the spin density of a single eigenvector
 crashed

---
 edpyt/cotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotools.py b/edpyt/cotools.py
index 48c9159..0274293 100644
--- a/edpyt/cotools.py
+++ b/edpyt/cotools.py
@@ -54,7 +54,7 @@ def draw_spin_density(atoms, evec, states, n, subset=None, axes=None, plane='xy'
         """
     axes = draw_skeleton(atoms, axes, plane)
     nup, ndw = map(lambda nxx: nxx[:,0], 
-                   get_evecs_occupation(np.atleast_2d(evec),states.up,states.dw,n))
+                   get_evecs_occupation(evec.reshape(len(evec),-1),states.up,states.dw,n))
     ax = 'xyz'.index(plane[0]), 'xyz'.index(plane[1])
     for i in range(n):
         circle = plt.Circle(positions[i,ax], nup[i], color='black', zorder=10)
-- 
2.43.0


From 801ec8672fa498ce0f7946bbb1b35cb9407cb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 56/56] fix: occupations of a single-level lattice with spin

---
 edpyt/nano_dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 9e8d56e..c996e46 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
-- 
2.43.0

