From 6925f344ca6607b99e1cf9c752faec0b1343c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 01/84] fix: electron-boson local energy puts every mode in its
 own Fock block

The block offset was never advanced, so the coupling of all the modes was
added to the block of the first one.
---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From cac8bccc0fdd8b8814631de4f30a6573aaa238fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 02/84] fix: allow bosonic modes with different numbers of Fock
 states

Stacking arrays of different lengths into one array raises.
---
 openms/qmc/estimators.py  | 6 ++----
 openms/qmc/propagators.py | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..882a835 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,9 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    waTa = backend.concatenate(
+        [w * backend.arange(mdim) for w, mdim in zip(omega, nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..1de6829 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1131,10 +1131,10 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
+        waTa = backend.concatenate(
+            [w * backend.arange(mdim)
+             for w, mdim in zip(self.system.boson_freq, self.system.nboson_states)]
         )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From a733b1bde370b7c7cbde84426974c5aaad0d3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 03/84] fix: do not change the default walker options of the
 module

Every QMC object updated the shared dictionary in place, so its options (the
number of walkers among them) leaked into the objects made before and after.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..0d2ed57 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = gwalker.default_walker_options.copy()
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From 59782e9cd55545b68ae9589662647658db4702e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 04/84] fix: numba Coulomb energy is quadratic in the Cholesky
 contraction

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 882a835..b3cfc47 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -471,7 +471,7 @@ if NUMBA_AVAILABLE:
                 LG = np.dot(Ghalfa[iw].ravel(), rltensora[l].ravel())
                 if Ghalfb is not None and rltensorb is not None:
                     LG += np.dot(Ghalfb[iw].ravel(), rltensorb[l].ravel())
-                ecoul[iw] += 0.5 * LG
+                ecoul[iw] += 0.5 * LG * LG
 
         return ecoul
 
-- 
2.43.0


From 7e3ed370f956c84fcbb80b0dff4e274f7dee4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 05/84] fix: one-body part of local_eng_elec carries the same
 spin factor as the two-body part

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index b3cfc47..82a1a9f 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -779,7 +779,7 @@ def local_eng_elec_chol(TL_theta, h1e, vbias, Gf):
 def local_eng_elec(h1e, eri, Gf, spin_fac=0.5):
     r"""Compute local energy of electrons"""
 
-    kin = backend.einsum("zSpq,Spq->z", Gf, h1e) * spin_fac
+    kin = 2.0 * backend.einsum("zSpq,Spq->z", Gf, h1e) * spin_fac
 
     # E_coul
     tmp = 2.0 * backend.einsum("prqs,zSpr->zqs", eri, Gf) * spin_fac
-- 
2.43.0


From b361efc3abe62dcdf691ba866181dcb73bdc0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 06/84] fix: read_fcidump restores (pq|rs) = (rs|pq)

An FCIDUMP file lists each of the eight equivalent integrals once.
---
 openms/qmc/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..aafafc5 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -316,6 +316,11 @@ def read_fcidump(fname, norb):
                 eri[q - 1, p - 1, r - 1, s - 1] = integral
                 eri[p - 1, q - 1, s - 1, r - 1] = integral
                 eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # (pq|rs) = (rs|pq)
+                eri[r - 1, s - 1, p - 1, q - 1] = integral
+                eri[s - 1, r - 1, p - 1, q - 1] = integral
+                eri[r - 1, s - 1, q - 1, p - 1] = integral
+                eri[s - 1, r - 1, q - 1, p - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From c599e64f29822634f30a37ad4f3bd832c80f8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:42 +0000
Subject: [PATCH 07/84] fix: blocked Cholesky sums the coupling over the modes

With more than one mode the unsummed array could not be reshaped.
---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index aafafc5..8f2f6d3 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -582,7 +582,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From 614f2704abd6054bd6324c48274c77633bb57248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:42 +0000
Subject: [PATCH 08/84] fix: blocked Cholesky stops at the maximal number of
 vectors instead of raising

The vector after the last one was written out of bounds before the limit was checked.
---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 8f2f6d3..0c3fa30 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -473,7 +473,7 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
 
     nao = mol.nao_nr()
     max_chols = max_chol_fac * nao
-    ltensor = numpy.zeros((max_chols, nao * nao))
+    ltensor = numpy.zeros((max_chols + 1, nao * nao))
     diag = numpy.zeros(nao * nao)
 
     # Compute basis indices
-- 
2.43.0


From 0dffb6587aab8955541af3f01ca2d3dea166401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:42 +0000
Subject: [PATCH 09/84] fix: chols_full does not change the integrals of the
 caller

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 0c3fa30..9c73816 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -413,7 +413,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
         eri = mol.intor('int2e_sph', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
-        eri += numpy.einsum("npq, nrs->pqrs", g, g)
+        eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
 
     eri = eri.reshape((nao**2, -1))
     u, s, v = scipy.linalg.svd(eri)
-- 
2.43.0


From 8f77392bfec5ef6bad72ca70dbf73ea1f37978cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 10/84] fix: keep the phase of the hybrid energy for the
 phaseless constraint

clip() returns its out argument, the real part, so assigning it dropped the
imaginary part and the phase of the overlap ratio with it.
---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 1de6829..3e8f784 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -792,7 +792,7 @@ class Phaseless(PropagatorBase):
         # the hybrid energy scheme
         if self.energy_scheme == "hybrid":
             ehybrid = -(backend.log(ovlp_ratio) + cfb + cmf) / self.dt
-            ehybrid = backend.clip(
+            backend.clip(
                 ehybrid.real,
                 a_min=eshift.real - self.ebound,
                 a_max=eshift.real + self.ebound,
-- 
2.43.0


From 3edea851fc70af33f43b12a6c302d56fb06e685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 11/84] fix: every photon mode is in the ground state of its
 own Hamiltonian

---
 openms/lib/boson.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..0098165 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1122,11 +1122,19 @@ class Boson(object):
         if hasattr(self, "Hph_sc"):
             hmat += unpack_symmetric(self.Hph_sc, hmat.shape[0], fac=2.0)
 
-        # Photon cavity mode eigenvectors
-        e, c = scipy.linalg.eigh(hmat)
-        idx = numpy.argmax(abs(c.real), axis=0)
-        e = e[idx]
-        c[:,c[idx,numpy.arange(len(e))].real<0] *= -1
+        # Photon cavity mode eigenvectors: the modes are independent, so each
+        # block is diagonalized on its own; the first column stacks the ground
+        # state of every mode
+        c = numpy.zeros_like(hmat)
+        idx = 0
+        for mdim in self.nboson_states:
+            mode = slice(idx, idx + mdim)
+            c_mode = scipy.linalg.eigh(hmat[mode, mode])[1]
+            imax = numpy.argmax(abs(c_mode.real), axis=0)
+            c_mode[:, c_mode[imax, numpy.arange(mdim)].real < 0] *= -1
+            c[mode, mode] = c_mode
+            c[mode, 0] = c_mode[:, 0]
+            idx += mdim
 
         # Photon ground state energy
         Etot = 0.0
-- 
2.43.0


From bc882391bf66c1764d88fb69ccc0125f9f100a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 12/84] fix: a fixed displacement enters the bilinear one-body
 term once, not once per electron

---
 openms/lib/boson.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 0098165..0aeea4c 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1592,8 +1592,7 @@ class Photon(Boson):
         # off-diaognal (photonic) block
         idx = 0
         for imode in range(self.nmodes):
-            shift = numpy.eye(self.gmat.shape[1]) * self.z_alpha[imode] #/ mol.nelectron
-            shift = s1e * self.z_alpha[imode]
+            shift = s1e * self.z_alpha[imode] / self._mol.nelectron
             gtmp = (self.gmat[imode] - shift)
             gtmp *= numpy.sqrt(0.5*self.omega[imode])
 
-- 
2.43.0


From cfe985cb328e1b1be283a89cf091dd7ef446a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 13/84] fix: photon number distribution of the displaced vacuum
 in QED-HF

---
 openms/mqed/qedhf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..edefc9d 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -833,11 +833,12 @@ class RHF(hf.RHF):
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = self.qed.z_alpha[imode]
+                # (z_alpha stores <lambda.D>, see Photon.update_cs)
+                zalpha = -self.qed.z_alpha[imode] / numpy.sqrt(2.0 * self.qed.omega[imode])
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(factorial(n)))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
-- 
2.43.0


From c84af42ddc3f51cf332bbcb04cfab3457c041fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 14/84] fix: FCI integrals couple every mode with its own
 frequency

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 0aeea4c..642d677 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -372,7 +372,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     qed.get_gmatao()
     gmat = qed.gmat
-    gmat_bilinear = gmat * numpy.sqrt(cavity_freq/2.0)
+    gmat_bilinear = numpy.einsum("X, Xpq -> Xpq", numpy.sqrt(qed.omega / 2.0), gmat)
     #gmat_bilinear = -gmat * numpy.sqrt(cavity_freq/2.0)
 
     enuc = mol.energy_nuc()
-- 
2.43.0


From 4cc1dd83fd7661a820996e13f9b5053ec3764486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 15/84] fix: import the Cholesky decomposition used for FCI
 integrals

---
 openms/lib/boson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 642d677..86d6428 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -383,6 +383,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     if chol_thresh is not None:
        # Here the purpose is to benchmark with other methdos that used chol decomposition and truncation
+        from openms.qmc.tools import chols_full
         ltensor = chols_full(mol, thresh=chol_thresh)
         eri = numpy.einsum("xpq, xrs->pqrs", ltensor, ltensor)
     dm0 = scf.hf.get_init_guess(mol)
-- 
2.43.0


From 1d6baff9185525fbafd5480c5e55eeaf391e5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 16/84] fix: density matrix of the FCI integrals is transformed
 with the AO overlap

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 86d6428..fd92b33 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -392,11 +392,11 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
     # transform into orthogonal basis
     #
 
+    SC = ovlp.dot(C)
     hcore = transform_ao2mo(hcore, C)
     ovlp = transform_ao2mo(ovlp, C)
     eri = ao2mo.kernel(eri, C)
     Hep = numpy.einsum("Xpq, pm, qn -> Xmn", gmat_bilinear, C, C, optimize=True)
-    SC = ovlp.dot(C)
     dm0 = transform_ao2mo(dm0, SC)
 
     # add DSE into eri
-- 
2.43.0


From 0aa0466f55bf4f7b6a1e4e9bb7b6d49447c836f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 17/84] fix: QED-FCI boson Hamiltonian with more than one mode

---
 openms/mqed/qedfci.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..48620a4 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -348,23 +348,32 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     fcinew = numpy.zeros(cishape)
 
     #
-    # w_x b^+_x b_x
+    # \sum_{xy} Hbb_{xy} b^+_x b_y
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
     for imode in range(nmode):
         nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
         for i in range(1, nboson+1):
             slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+            fcinew[slices0] += ci0[slices0] * (Hbb[imode, imode] * i)
+        for jmode in range(nmode):
+            if jmode == imode or Hbb[imode, jmode] == 0.0:
+                continue
+            tmp = des_boson(ci0, norb, nelec, nmode, boson_states, jmode)
+            fcinew += Hbb[imode, jmode] * cre_boson(
+                tmp, norb, nelec, nmode, boson_states, imode
+            )
 
     # coherent state
     if zalpha is not None:
+        wz = numpy.dot(Hbb, zalpha)
         for imode in range(nmode):
             nboson = boson_states[imode]
             boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
             for i in range(nboson):
                 slices1 = slices_for_cre(imode, nmode, i)
                 slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
+                tmp = wz[imode] * boson_cre[i]
                 fcinew[slices1] += tmp * ci0[slices0]
                 fcinew[slices0] += tmp * ci0[slices1]
     """
-- 
2.43.0


From 7ec5356d2a729432f03881274f212489f79a73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 18/84] fix: undefined names in the QED-FCI contractions

---
 openms/mqed/qedfci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 48620a4..6dd18ad 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
@@ -228,7 +228,7 @@ def contract_2e_hubbard(u, fcivec, norb, nelec, nmode, boson_states):
     for i in range(norb):
         maska = (strsa & (1 << i)) > 0
         maskb = (strsb & (1 << i)) > 0
-        fcinew[maska[:, None] & maskb] += u * ci0[maska[:, None] & maskb]
+        fcinew[maska[:, None] & maskb] += u_ab * ci0[maska[:, None] & maskb]
     return fcinew.reshape(fcivec.shape)
 
 
-- 
2.43.0


From 757c3319697d667d510e527bab18b73a48fb05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 19/84] fix: boson density matrix of QED-FCI runs over the
 modes

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 6dd18ad..17c9d6a 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -800,7 +800,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -809,7 +809,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From dbafec7ce0a17e24d50d4bd94c5191282f4115f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 20/84] fix: QED-FCI coherent-state option shifts the boson
 Hamiltonian

---
 openms/mqed/qedfci.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 17c9d6a..f2335e1 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -251,7 +251,7 @@ def absorb_h1e(h1e, eri, norb, nelec, fac=1):
         h2e[:, :, k, k] += f1e
     return h2e * fac
 
-def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
+def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states, zalpha=None):
     r""" """
 
     # electronic part
@@ -279,7 +279,7 @@ def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
 
     # bosonic term
     # print("Debug-yz: contracting bosonic interaction part")
-    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states)
+    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states, zalpha)
     # print("Debug: c after contract_bb is ", cout)
     t4 = time.time()
 
@@ -679,19 +679,16 @@ def kernel(
         print ("FCI electronic : ", e0)
     if electron_only: return e0, 0.0, 0.0
 
+    zalpha = None
     if coherent_state:
         if nroots > 1:
             dm0 = direct_spin1.make_rdm1(c[0], norb, nelec)
         else:
             dm0 = direct_spin1.make_rdm1(c, norb, nelec)
         # TODO: modify the H1, H2, Heb, Hbb with coherent state representation
-        if Hbb.ndim == 1:
-            zalpha = - numpy.einsum('xpq, qp -> x', Heb, dm0, optimize=True) / Hpp
-            ecore = ecore + np.einsum("x, x ->", Hpp, zalpha**2)
-        else:
-            tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
-            zalpha = la.solve(Hbb, tmp)
-            ecore = ecore + np.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
+        tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
+        zalpha = numpy.linalg.solve(Hbb, tmp)
+        ecore = ecore + numpy.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
         H1 = H1 + numpy.einsum('xpq, x -> pq', Heb, zalpha * 2, optimize=True)
 
 
@@ -720,7 +717,7 @@ def kernel(
     H2mod =  absorb_h1e(H1, H2, norb, nelec, 0.5)
     print("Debug: norm of modified H2 =", numpy.linalg.norm(H2mod))
     def hop(c):
-        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states)
+        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states, zalpha)
         # hc = contract_all(H1, H2, Heb, Hbb, c, norb, nelec, nmode, boson_states)
         return hc.reshape(-1)
 
-- 
2.43.0


From 0da3ce011abd44ae554fb123f8c33196feaf8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:44 +0000
Subject: [PATCH 21/84] fix: post-HF Fock matrix does not change the core
 Hamiltonian of the mean field

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index fd92b33..f873bf0 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2080,7 +2080,7 @@ class Photon(Boson):
 
         # add DSE-oei contribution
         if not self.shift:
-            h1 += self.add_oei_ao(self.pa+self.pb)
+            h1 = h1 + self.add_oei_ao(self.pa+self.pb)
 
 
         ptot = block_diag(self.pa, self.pb)
-- 
2.43.0


From debc18677f32b172f8c43cf1e9752b6d101dcd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 22/84] fix: QED-CC doubles residuals fail unless the mode
 number is one or the virtual number

The unused sum of virtual energies and mode frequencies raises for every other
number of modes.
---
 openms/mqed/myqedcc_equations.py     | 3 ---
 openms/mqed/myqedcc_equations_opt.py | 3 ---
 openms/mqed/qedcc_equations.py       | 2 --
 3 files changed, 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b829782..db73950 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -804,7 +804,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1616,7 +1615,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2554,7 +2552,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..a54f317 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -817,7 +817,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1629,7 +1628,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2572,7 +2570,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..a3809fc 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -1386,7 +1385,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From 4dc2bfe309bf4e7861e535d629711a129afec0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:13 +0000
Subject: [PATCH 23/84] fix: Hartree-Fock trial in the MO representation keeps
 all occupied orbitals

A single column was selected instead of the first nalpha/nbeta columns, so the
MO representation (OAO=False) raised.
---
 openms/qmc/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 662c19c..9ae3c93 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -773,8 +773,8 @@ class TrialHF(TrialWFBase):
             tmp = backend.identity(nmo)[:, self.mf.mo_occ > 0]
             #self.psia = self.psib = tmp
             # psia and psib may have different size, when nalpha and nbeta are different
-            self.psia = tmp[:, self.nalpha]
-            self.psib = tmp[:, self.nbeta]
+            self.psia = tmp[:, :self.nalpha]
+            self.psib = tmp[:, :self.nbeta]
 
         # print("Debug: nelec  = ", self.mol.nelec)
         # print("Debug: mo_occ = ", self.mf.mo_occ)
-- 
2.43.0


From a38d4aac12fe65bf2fa7a2a4b24f45b2261c5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 24/84] fix: decoupled bilinear fields act on their own bosonic
 mode

The bosonic factors were built from the Fock space of the first mode only, so
calculations with several modes raised.
---
 openms/qmc/propagators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 3e8f784..493d3c2 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1157,10 +1157,13 @@ class PhaselessElecBoson(Phaseless):
             self.chol_bilinear_b = self.chol_bilinear[1] # bosonic part
 
             # 2) construct bosonic MF shift
-            nfock = self.system.nboson_states[0]
-            # matrix representation of (a^\dag + a) in Fcok space
-            Hq = boson_adag_plus_a(1, [nfock], [1.0])
-            self.chol_B = backend.einsum("X, nm-> Xnm", self.chol_bilinear_b, Hq)
+            # matrix representation of (a^\dag + a) of every mode in Fock space
+            Hq = backend.array([
+                boson_adag_plus_a(nmodes, self.system.nboson_states, za) for za in backend.identity(nmodes)
+            ])
+            # each mode has the same number of fields
+            Hq = backend.repeat(Hq, len(self.chol_bilinear_b) // nmodes, axis=0)
+            self.chol_B = backend.einsum("X, Xnm-> Xnm", self.chol_bilinear_b, Hq)
             self.nBfields = self.chol_B.shape[0]
             if not self.turnoff_bosons:
                 assert self.nBfields == (self.nfields - self.nbarefields)
-- 
2.43.0


From 9077c3bb1217959e2778107c42d581b597d87613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 25/84] fix: get_blksize skips Cholesky vectors without
 elements above the threshold

---
 openms/qmc/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 9c73816..1d1514e 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -15,6 +15,8 @@ def get_blksize(ltensor, threshold):
     blksize = 0
     for l in range(ltensor.shape[0]):
         idx_nnz = numpy.argwhere(numpy.abs(ltensor[l]) >= threshold)
+        if len(idx_nnz) == 0:
+            continue
         blksize = max(blksize, numpy.max(numpy.abs(idx_nnz[:, 0] - idx_nnz[:, 1])))
         # print(f"blksize of {l} th chols is {blksize}")
     # print("max distance between nnz in ltensor is", blksize)
-- 
2.43.0


From 0f9e9fb22fc13a9e02577b90dc3201d70dee6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 26/84] fix: renormalisation of bosonic walkers keeps the signs
 of their amplitudes

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 0d2ed57..01e45c2 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -736,7 +736,7 @@ class QMCbase(object):
             ortho_walkers = backend.zeros_like(self.walkers.boson_phiw)
             norms = backend.einsum('ij,ij->i', self.walkers.boson_phiw, self.walkers.boson_phiw.conj())
             norms = backend.sqrt(norms)
-            self.walkers.boson_phiw = backend.abs(self.walkers.boson_phiw / norms[:, None])
+            self.walkers.boson_phiw = self.walkers.boson_phiw / norms[:, None]
             # for iw in range(self.walkers.boson_phiw.shape[0]):
             #    ortho_walkers[iw] = backend.linalg.qr(self.walkers.boson_phiw[iw])[0]
             # self.walkers.boson_phiw = ortho_walkers
-- 
2.43.0


From 61534b6953b37be74a0ffd8397338e36e0a96502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 27/84] fix: MPI runs seed the random generator that the
 propagators draw from

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 01e45c2..100ab62 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From 4d88140c46cd611beedb2d4687c03e7d14c34c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:19 +0000
Subject: [PATCH 28/84] fix: population control moves the energies of a walker
 with its wavefunction

---
 openms/qmc/population_control.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index ce6276d..b81a0d6 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -499,11 +499,15 @@ def population_control_factory(walkers, method="branching"):
         # print(f"Sum(weights) before control: {backend.sum(walkers.weights):.3f}")
 
         # pack the walker WF (phiwa, phib, boson_phiw) in one list
-        packed_walkers = walkers._pack_walkers()
+        # together with the energies of the walker, which move with its WF
+        packed_walkers = list(zip(walkers._pack_walkers(), walkers.ehybrid, walkers.eloc))
         new_walkers, weights = control_func(packed_walkers, walkers.weights)
 
-        # updte walker WF and weights
-        walkers._unpack_walkers(new_walkers)
+        # updte walker WF, energies and weights
+        new_wfs, new_ehybrid, new_eloc = zip(*new_walkers)
+        walkers._unpack_walkers(new_wfs)
+        walkers.ehybrid = numpy.array(new_ehybrid)
+        walkers.eloc = numpy.array(new_eloc)
         walkers.weights = weights
 
         # if MPI, we need to do inter-node redistribution
-- 
2.43.0


From ea0a83fb3717ca6c24e0af2f8d85a69924ef2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:56 +0000
Subject: [PATCH 29/84] fix: electron-boson energies are summed over the MPI
 ranks

---
 openms/qmc/propagators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 493d3c2..f51420d 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1211,6 +1211,12 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            # norm, e1 and e2 are already reduced
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
-- 
2.43.0


From 68eb15c688622a100b954797c39ebefa3c69e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 30/84] fix: coherent-state trial with more than 21 boson
 states no longer fails

---
 openms/qmc/trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 9ae3c93..7683166 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -613,7 +613,7 @@ def initialize_boson_trial_with_z(zalpha, boson_states):
     for imode in range(nmodes):
         for n in range(boson_states[imode]):
             alpha = zalpha[imode]
-            coeff = (backend.exp(-backend.abs(alpha)**2 / 2) * (alpha**n) / backend.sqrt(factorial(n)))
+            coeff = (backend.exp(-backend.abs(alpha)**2 / 2) * (alpha**n) / backend.sqrt(float(factorial(n))))
             coefficients.append(coeff)
     coefficients = backend.array(coefficients)
     norm_factor = backend.sqrt(backend.sum(backend.abs(coefficients)**2))
-- 
2.43.0


From 9a204bd24405cd4af9472c9a5cf98e54e3b1ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 31/84] fix: Fock-space trial keeps the phases of complex
 coherent amplitudes

---
 openms/qmc/trial_boson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial_boson.py b/openms/qmc/trial_boson.py
index ea5e6b0..f7dbddb 100644
--- a/openms/qmc/trial_boson.py
+++ b/openms/qmc/trial_boson.py
@@ -174,7 +174,8 @@ class TrivialFock(TrialBosonBase):
 
         print("Build trial in Fock space")
         count = 0
-        self.boson_psi = np.zeros(self.ndim)
+        dtype = np.float64 if alpha is None else np.result_type(np.float64, *alpha)
+        self.boson_psi = np.zeros(self.ndim, dtype=dtype)
         for n_vec in backend.ndindex(*(self.nfock, ) * self.nmodes):
             if alpha is not None:
                 # Compute coefficient using coherent state expansion
@@ -192,7 +193,7 @@ class TrivialFock(TrialBosonBase):
 
         """
 
-        return calc_trial_walker_ovlp_gf(walker, self)
+        return calc_trial_walker_ovlp_gf(walkers, self)
 
 
 class CoherentState(TrialBosonBase):
-- 
2.43.0


From 69d2080739238ffe25f9a427bdf05756e4f56c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 32/84] fix: error analysis of data without variance

---
 openms/qmc/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 1d1514e..78d05d1 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -665,7 +665,7 @@ def autocorr_func(x, normalize=True):
     acf = numpy.fft.ifft(f * numpy.conjugate(f))[: len(x)].real
     acf /= (4 * n)  # Normalization factor
 
-    if normalize:
+    if normalize and acf[0] > 0.0:
         acf /= acf[0]  # Normalize to 1 at zero lag
 
     return acf
@@ -748,6 +748,8 @@ def remove_outliers(data, method="zscore", threshold=10.0):
     if method == "zscore":
         mean = numpy.mean(data)
         std = numpy.std(data)
+        if std == 0.0:
+            return data
         z_scores = numpy.abs((data - mean) / std)
         return data[z_scores < threshold]
 
-- 
2.43.0


From 5016dbdd2bed65b64c634798f279327124158ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 33/84] fix: blocks of anticorrelated data contain at least one
 sample

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 78d05d1..fa7756c 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -825,7 +825,7 @@ def analysis_autocorr(y, name="etot", method="zscore", threshold=10.0, verbose=F
         for n, tautocorr in zip(reversed(Ndata), reversed(autocorr_times)):
             print(f"nsamples: {n}, autocorrelation time: {tautocorr}")
 
-    block_size = int(numpy.ceil(autocorr_times[0]))  # Use the estimate with the largest sample size
+    block_size = max(1, int(numpy.ceil(autocorr_times[0])))  # Use the estimate with the largest sample size
     nblocks = len(y_clean) // block_size
     yblocked = [numpy.mean(y_clean[i * block_size : (i + 1) * block_size]) for i in range(nblocks)]
 
-- 
2.43.0


From 53d32f87161730c250277a46671993c026b45a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 34/84] fix: open two-site Hubbard-Holstein chain has a single
 bond

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..827eaea 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -150,7 +150,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == "p":
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From 86a2772f6b999838a496c345da7f098d1557fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 35/84] fix: two-dimensional spectrum of aggregates fails
 without sys

---
 openms/models/aggregates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 4acaf56..6d5cd9f 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -21,6 +21,7 @@ Disordered molecular aggregates.
 import openms.lib.backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
+import sys
 
 
 def linear_spec(elist, state, evals, dip, gamma):
-- 
2.43.0


From 1161ddcd0c8c90dda0022329592d77841819048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 36/84] fix: aggregates keep the transition dipoles of an
 earlier disorder realisation

---
 openms/models/aggregates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 6d5cd9f..afbfdfc 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -156,6 +156,8 @@ class DMA(object):
         idx = self.evals.argsort()
         self.evals = self.evals[idx]
         self.evecs = self.evecs[:, idx]
+        self.excdipole1 = None
+        self.dipsortidx = None
 
 
     def energies(self):
-- 
2.43.0


From b5bda7774a109f98f049cc571648306af429b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 37/84] fix: tiled product with a differently tiled matrix is
 refused on both sides

---
 utilities/pytiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utilities/pytiles.py b/utilities/pytiles.py
index 8284489..64b4637 100644
--- a/utilities/pytiles.py
+++ b/utilities/pytiles.py
@@ -385,6 +385,12 @@ class BlockSparseLtensor:
                 raise ValueError(
                     f"Right multiply mismatch: L is {self.N}x{self.N}, B is {B_shape}."
                 )
+            # require B.row_tiles aligned with L.col_tiles
+            if (
+                isinstance(B, TiledDenseMatrix)
+                and B.row_tiles.edges != self.col_tiles.edges
+            ):
+                raise ValueError("For L @ B, B.row_tiles must match L.col_tiles.")
             M = B_shape[1]
             out_dtype = self._result_dtype(B_dtype)
 
-- 
2.43.0


From 24f80680a88cb1bb3204847ff4f39a8cace7d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:31 +0000
Subject: [PATCH 38/84] fix: spin-resolved Hubbard integrals of empty or full
 spin channels

---
 openms/models/hubbard.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/models/hubbard.py b/openms/models/hubbard.py
index 0bf5a9c..249b149 100644
--- a/openms/models/hubbard.py
+++ b/openms/models/hubbard.py
@@ -147,10 +147,10 @@ class Hubbard1D(object):
         ob = temp[:nb]
         va = temp[na:]
         vb = temp[nb:]
-        oidxa = numpy.r_[oa]
-        vidxa = numpy.r_[va]
-        oidxb = numpy.r_[ob]
-        vidxb = numpy.r_[vb]
+        oidxa = numpy.array(oa, dtype=int)
+        vidxa = numpy.array(va, dtype=int)
+        oidxb = numpy.array(ob, dtype=int)
+        vidxb = numpy.array(vb, dtype=int)
         foa = numpy.zeros(self.L)
         fob = numpy.zeros(self.L)
         for i in range(self.na):
@@ -207,10 +207,10 @@ class Hubbard1D(object):
         ob = temp[:nb]
         va = temp[na:]
         vb = temp[nb:]
-        oidxa = numpy.r_[oa]
-        vidxa = numpy.r_[va]
-        oidxb = numpy.r_[ob]
-        vidxb = numpy.r_[vb]
+        oidxa = numpy.array(oa, dtype=int)
+        vidxa = numpy.array(va, dtype=int)
+        oidxb = numpy.array(ob, dtype=int)
+        vidxb = numpy.array(vb, dtype=int)
         Va, Vb, Vabab = self.u_aint_tot()
 
         Vvvvv = Va[numpy.ix_(vidxa, vidxa, vidxa, vidxa)]
-- 
2.43.0


From fa5037c1c06b171a54e77f303718701bc0ca47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 39/84] fix: molecular aggregates use the array backend instead
 of its module

---
 openms/models/aggregates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index afbfdfc..5576551 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -18,7 +18,7 @@ r"""
 Disordered molecular aggregates.
 """
 
-import openms.lib.backend as bd
+from openms.lib.backend import backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
 import sys
-- 
2.43.0


From 4b09adac279da7ca419642ccbcb19528f1f1fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 40/84] fix: shape names of FDTD objects overflow their buffer

---
 openms/lib/fdtd/pFDTD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/pFDTD.h b/openms/lib/fdtd/pFDTD.h
index 18534a9..374e317 100755
--- a/openms/lib/fdtd/pFDTD.h
+++ b/openms/lib/fdtd/pFDTD.h
@@ -30,7 +30,7 @@
 // Definitions of structures
 //-----------------------------------------------------------------//
 struct obj {
-  char shape[10];
+  char shape[20];
   float centeri;
   float centerj;
   float centerk;
@@ -44,7 +44,7 @@ struct obj {
 };
 
 struct mobj {
-  char shape[10];
+  char shape[20];
   float centeri;
   float centerj;
   float centerk;
-- 
2.43.0


From 9d232c1799637e0cef7da24d502c60d55dfb7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 41/84] fix: FDTD object list is reset once it has been
 released

---
 openms/lib/fdtd/input.c    | 2 ++
 openms/lib/fdtd/metalobj.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 8bbd808..888bff2 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -385,6 +385,8 @@ void make_epsilon() {
   }
 
   free(object);
+  object = NULL; // objects may be added for another structure
+  objectn = 0;
 
   printf("make_epsilon...ok\n");
 }
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index a624fc3..70cd65b 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -348,6 +348,8 @@ void make_metal_structure() {
   }
 
   free(mobject);
+  mobject = NULL; // objects may be added for another structure
+  mobjn = 0;
 
   printf("make_metal_structure...ok\n");
 }
-- 
2.43.0


From f8c31221227b51496f35e4051dc0f92b8d44e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 42/84] fix: contour objects read outside their matrix

---
 openms/lib/fdtd/input.c    | 10 ++++++----
 openms/lib/fdtd/metalobj.c | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 888bff2..48db151 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -597,10 +597,12 @@ int in_object(int n, float i, float j, float k) {
                   (i - (xcenter * lattice_x)) / object[n].size3);
         J = floor(object[n].centerj +
                   (j - (ycenter * lattice_y)) / object[n].size3);
+        if (I < 0 || J < 0 || I >= object[n].col || J >= object[n].row)
+          return 0; // upper edges of the matrix
         if (object[n].matrix[I][J] <= object[n].size1)
           return 1;
-      } else
-        return 0;
+      }
+      return 0;
     } else {
     }
   } else
@@ -680,7 +682,7 @@ void reading_matrix(char *matrix_file, int n) {
   int i, j;
   int col, row;
   char ch;
-  char string[20];
+  char string[64];
 
   stream = fopen(matrix_file, "rt");
 
@@ -716,7 +718,7 @@ void reading_matrix(char *matrix_file, int n) {
   //////// Reading matrix file data //////
   for (j = row - 1; j >= 0; j--) {
     for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
+      fscanf(stream, "%63s", string);
       object[n].matrix[i][j] = atof(string);
     }
   }
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index 70cd65b..ce18fa3 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -521,10 +521,12 @@ int in_mobject(int n, float i, float j, float k) {
                 (i - (xcenter * lattice_x)) / mobject[n].size3);
       J = floor(mobject[n].centerj +
                 (j - (ycenter * lattice_y)) / mobject[n].size3);
+      if (I < 0 || J < 0 || I >= mobject[n].col || J >= mobject[n].row)
+        return 0; // upper edges of the matrix
       if (mobject[n].matrix[I][J] <= mobject[n].size1)
         return 1;
-    } else
-      return 0;
+    }
+    return 0;
   }
 
   else {
@@ -536,7 +538,7 @@ void reading_matrix_m(char *matrix_file, int n) {
   int i, j;
   int col, row;
   char ch;
-  char string[20];
+  char string[64];
 
   stream = fopen(matrix_file, "rt");
 
@@ -572,7 +574,7 @@ void reading_matrix_m(char *matrix_file, int n) {
   //////// Reading matrix file data //////
   for (j = row - 1; j >= 0; j--) {
     for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
+      fscanf(stream, "%63s", string);
       mobject[n].matrix[i][j] = atof(string);
     }
   }
-- 
2.43.0


From a8efc8f4a8215f2c85fcff3f465400abf649865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 43/84] fix: radius of FDTD cones is truncated to whole grid
 cells

---
 openms/lib/fdtd/input.c    | 2 +-
 openms/lib/fdtd/metalobj.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 48db151..5cc5d86 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -445,7 +445,7 @@ float average_epsilon(float i, float j, float k) {
 int in_object(int n, float i, float j, float k) {
   int I, J;
   float X, Y, Z;
-  int temp;
+  float temp;
 
   if (strcmp(object[n].shape, "Rrod") != 0 &&
       strcmp(object[n].shape, "Rellipse") != 0 &&
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index ce18fa3..0a3dafa 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -357,7 +357,7 @@ void make_metal_structure() {
 int in_mobject(int n, float i, float j, float k) {
   int I, J;
   float X, Y, Z;
-  int temp;
+  float temp;
 
   if (strcmp(mobject[n].shape, "rod") == 0) {
     if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-- 
2.43.0


From 33f6b543c721b33f5a17ddd8f6a2ff9d8dc9a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 44/84] fix: length of metallic rods along x and y follows
 their own axis

---
 openms/lib/fdtd/metalobj.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index 0a3dafa..97a5928 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -94,8 +94,8 @@ void input_Drude_medium(char *shape, float centerx, float centery,
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
   } else if (strcmp(shape, "rodY") ==
              0) //// not applicable for non_uniform_grid()
   {
@@ -103,7 +103,7 @@ void input_Drude_medium(char *shape, float centerx, float centery,
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
     mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
   } else if (strcmp(shape, "donut") == 0) {
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
@@ -239,8 +239,8 @@ void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
   } else if (strcmp(shape, "rodY") ==
              0) //// not applicable for non_uniform_grid()
   {
@@ -248,7 +248,7 @@ void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
     mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
   } else if (strcmp(shape, "donut") == 0) {
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-- 
2.43.0


From 95702e046c63fa14c81202f4caf9ab14a7c24e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 45/84] fix: Poynting flux detectors use the y extent along y

---
 openms/lib/fdtd/energy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index b036b3b..9b25fd0 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -325,7 +325,7 @@ void Poynting_total() {
     for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
          k >= 1 + pmlkl + 0.2 * lattice_z; k--) {
       sumyp += (ds_nz[k] * ds_x) *
-               grid_value("Sy", i, jsize - 2 - pmljl - 0.2 * lattice_y, k);
+               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
       sumyn +=
           (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
     }
@@ -359,7 +359,7 @@ float Poynting_half_sphere_point(char *component, float z0, float R,
 
   ////// unit = grid //////
   xg = floor(0.5 + ((x + xcenter) * lattice_x));
-  yg = floor(0.5 + ((y + xcenter) * lattice_y));
+  yg = floor(0.5 + ((y + ycenter) * lattice_y));
   zg = non_uniform_z_to_i(z);
 
   if (strcmp("r", component) == 0) {
-- 
2.43.0


From 80b5493debfc0f77066f19b589820b6479172ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 46/84] fix: continuous Lorentzian source keeps its imaginary
 part

---
 openms/lib/fdtd/incoherent.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/openms/lib/fdtd/incoherent.c b/openms/lib/fdtd/incoherent.c
index 498ac11..db4fba5 100755
--- a/openms/lib/fdtd/incoherent.c
+++ b/openms/lib/fdtd/incoherent.c
@@ -187,16 +187,15 @@ float iGauss_amp(float frequency, float phase, long to, long tdecay) {
 }
 
 float iLorentz_amp(float frequency, float phase, long to, long tdecay) {
-  if (to <= t && t < to + 8 * tdecay) {
-    if (tdecay == 0)
-      return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                       lattice_x +
-                   phase));
-    else
-      return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                       lattice_x +
-                   phase) *
-              exp(-(float)(t - to) / tdecay));
-  } else
+  if (tdecay == 0)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase));
+  else if (to <= t && t < to + 8 * tdecay)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase) *
+            exp(-(float)(t - to) / tdecay));
+  else
     return (0.0);
 }
-- 
2.43.0


From d06b452547b885c778e0516c930c5280831a358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 47/84] fix: rows of FDTD sampling points are spaced by their
 own number

---
 openms/lib/fdtd/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index c6030fd..f15b0d7 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -676,7 +676,7 @@ void out_several_points(char *component, float zposition, float xside,
         i = floor(0.5 +
                   ((-0.5 * xside + m * (xside / pNx) + xcenter) * lattice_x));
         j = floor(0.5 +
-                  ((-0.5 * yside + n * (yside / pNx) + ycenter) * lattice_y));
+                  ((-0.5 * yside + n * (yside / pNy) + ycenter) * lattice_y));
         fprintf(file, "%g\t", grid_value(component, i, j, k));
       }
     }
-- 
2.43.0


From c688dcad2d647af430e67bbf1b85c09031fc5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 48/84] fix: long suffixes of FDTD output files overflow their
 buffer

---
 openms/lib/fdtd/output.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index f15b0d7..b8a00ee 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -299,7 +299,7 @@ void out_epsilon_projection(char *dirc, char *name) {
 
 void out_plane(char *component, char *plane, float value, char *lastname) {
   FILE *file;
-  char name[20];
+  char name[256];
   int i, j, k;
   int i_range, j_range, k_range;
   int mz; // for non_uniform_grid multiplication
@@ -315,7 +315,7 @@ void out_plane(char *component, char *plane, float value, char *lastname) {
     j_range = jsize;
 
   sprintf(name, "%07d", t);
-  strcat(name, lastname);
+  strncat(name, lastname, sizeof(name) - strlen(name) - 1);
   file = fopen(name, "w");
 
   if (strcmp("x", plane) == 0) {
@@ -359,7 +359,7 @@ void out_plane(char *component, char *plane, float value, char *lastname) {
 void out_plane_periodic(char *component, char *plane, float value,
                         char *lastname, int m_h, int m_v) {
   FILE *file;
-  char name[20];
+  char name[256];
   int i, j, k;
   int h, v;
   int i_range, j_range, k_range;
@@ -371,7 +371,7 @@ void out_plane_periodic(char *component, char *plane, float value,
   k_range = ksize - 1;
 
   sprintf(name, "%07d", t);
-  strcat(name, lastname);
+  strncat(name, lastname, sizeof(name) - strlen(name) - 1);
   file = fopen(name, "w");
 
   if (strcmp("x", plane) == 0) {
@@ -433,7 +433,7 @@ void out_plane_time_average(char *component, char *plane, float value,
                             long start, long end, float ***field_avg,
                             char *lastname) {
   FILE *file;
-  char name[20];
+  char name[256];
   int i, j, k;
   int i_range, j_range, k_range;
   int mz; // for non_uniform_grid multiplication
@@ -471,7 +471,7 @@ void out_plane_time_average(char *component, char *plane, float value,
 
     if (t == end) {
       sprintf(name, "%07d", start);
-      strcat(name, lastname);
+      strncat(name, lastname, sizeof(name) - strlen(name) - 1);
       file = fopen(name, "w");
 
       for (k = k_range; k >= 1; k--) {
@@ -511,7 +511,7 @@ void out_plane_time_average(char *component, char *plane, float value,
 
     if (t == end) {
       sprintf(name, "%07d", start);
-      strcat(name, lastname);
+      strncat(name, lastname, sizeof(name) - strlen(name) - 1);
       file = fopen(name, "w");
 
       for (k = k_range; k >= 1; k--) {
@@ -551,7 +551,7 @@ void out_plane_time_average(char *component, char *plane, float value,
 
     if (t == end) {
       sprintf(name, "%07d", start);
-      strcat(name, lastname);
+      strncat(name, lastname, sizeof(name) - strlen(name) - 1);
       file = fopen(name, "w");
 
       for (j = j_range; j >= 1; j--) {
@@ -570,7 +570,7 @@ void out_plane_time_average_projection(char *component, char *dirc, long start,
                                        long end, float ***field_avg,
                                        char *lastname, int k_shift) {
   FILE *file;
-  char name[20];
+  char name[256];
   int i, j, k;
   int i_range, j_range, k_range;
 
@@ -608,7 +608,7 @@ void out_plane_time_average_projection(char *component, char *dirc, long start,
 
     if (t == end) {
       sprintf(name, "%07d", start);
-      strcat(name, lastname);
+      strncat(name, lastname, sizeof(name) - strlen(name) - 1);
       file = fopen(name, "w");
 
       for (j = j_range; j >= 1; j--) {
@@ -626,7 +626,7 @@ void out_plane_time_average_projection(char *component, char *dirc, long start,
 void out_plane_projection(char *component, char *dirc, char *lastname,
                           int k_shift) {
   FILE *file;
-  char name[20];
+  char name[256];
   int i, j, k;
   int i_range, j_range, k_range;
 
@@ -641,7 +641,7 @@ void out_plane_projection(char *component, char *dirc, char *lastname,
     j_range = jsize;
 
   sprintf(name, "%07d", t);
-  strcat(name, lastname);
+  strncat(name, lastname, sizeof(name) - strlen(name) - 1);
   file = fopen(name, "w");
 
   if (strcmp("+z", dirc) == 0) {
-- 
2.43.0


From 6b84e0da338452a47dabbab7acc954444a3bcc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 49/84] fix: Bloch phase of periodic FDTD planes includes 2 pi
 along y

---
 openms/lib/fdtd/output.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index b8a00ee..cd4c666 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1070,24 +1070,24 @@ float grid_value_periodic_xy(char *component, int i, int j, int k, int h,
                              int v) {
   float E_x, E_y, E_z, J_x, J_y, J_z, H_x, H_y, H_z;
 
-  E_x = efieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  E_y = efieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  E_z = efieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_x = jfieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_y = jfieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_z = jfieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_x = hfieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_y = hfieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_z = hfieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
+  E_x = efieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  E_y = efieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  E_z = efieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_x = jfieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_y = jfieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_z = jfieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_x = hfieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_y = hfieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_z = hfieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
 
   if (strcmp(component, "Ex") == 0)
     return (E_x);
-- 
2.43.0


From 0eb333fdc5450a09db2a70fa0039646c32f395cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 50/84] fix: periodic FDTD planes at the Gamma point use the
 real fields

---
 openms/lib/fdtd/output.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index cd4c666..1d053bc 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1369,6 +1369,9 @@ float hfieldz(int i, int j, int k) {
 float iefieldx(int i, int j, int k) {
   int p = 1;
 
+  if (iEx == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * xparity;
@@ -1388,6 +1391,9 @@ float iefieldx(int i, int j, int k) {
 float iefieldy(int i, int j, int k) {
   int p = 1;
 
+  if (iEy == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * (-xparity);
@@ -1407,6 +1413,9 @@ float iefieldy(int i, int j, int k) {
 float iefieldz(int i, int j, int k) {
   int p = 1;
 
+  if (iEz == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * (-xparity);
@@ -1426,6 +1435,9 @@ float iefieldz(int i, int j, int k) {
 float ijfieldx(int i, int j, int k) {
   int p = 1;
 
+  if (iJx == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * xparity;
@@ -1445,6 +1457,9 @@ float ijfieldx(int i, int j, int k) {
 float ijfieldy(int i, int j, int k) {
   int p = 1;
 
+  if (iJy == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * (-xparity);
@@ -1464,6 +1479,9 @@ float ijfieldy(int i, int j, int k) {
 float ijfieldz(int i, int j, int k) {
   int p = 1;
 
+  if (iJz == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * (-xparity);
@@ -1483,6 +1501,9 @@ float ijfieldz(int i, int j, int k) {
 float ihfieldx(int i, int j, int k) {
   int p = 1;
 
+  if (iHx == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * (-xparity);
@@ -1505,6 +1526,9 @@ float ihfieldx(int i, int j, int k) {
 float ihfieldy(int i, int j, int k) {
   int p = 1;
 
+  if (iHy == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * xparity;
@@ -1527,6 +1551,9 @@ float ihfieldy(int i, int j, int k) {
 float ihfieldz(int i, int j, int k) {
   int p = 1;
 
+  if (iHz == NULL) // real fields at the Gamma point
+    return 0.0;
+
   if (pisize <= i && (xparity == 1 || xparity == -1)) {
     i = isize - i;
     p = p * xparity;
-- 
2.43.0


From ea2939f574b796501a91cc80c12bf79e44e369d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 51/84] fix: external plane wave drives its magnetic component

---
 openms/lib/fdtd/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/source.c b/openms/lib/fdtd/source.c
index 91df802..7edeab3 100755
--- a/openms/lib/fdtd/source.c
+++ b/openms/lib/fdtd/source.c
@@ -207,7 +207,7 @@ void external_planewave(char *Ecomp, char *Hcomp, float z, float Ext) {
         if (i > 0)
           Ex[i - 1][j][k] = Ex[i - 1][j][k] + Ext / 2;
       }
-      if (strcmp(Ecomp, "Hy") == 0) {
+      if (strcmp(Hcomp, "Hy") == 0) {
         Hy[i][j][k] = Hy[i][j][k] + Ext / 2 * sqrt(eo / uo) / 4;
         if (i > 0)
           Hy[i - 1][j][k] = Hy[i - 1][j][k] + Ext / 2 * sqrt(eo / uo) / 4;
-- 
2.43.0


From 95718d69036b69178946c00d2b20a1c6575104fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 52/84] fix: non-uniform FDTD grids keep their layers in place

---
 openms/lib/fdtd/parameter.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/openms/lib/fdtd/parameter.c b/openms/lib/fdtd/parameter.c
index 0f22ecf..4f5cd5e 100755
--- a/openms/lib/fdtd/parameter.c
+++ b/openms/lib/fdtd/parameter.c
@@ -72,7 +72,8 @@ void non_uniform_grid(char *component, float z_i, float z_f, int nlz) {
 }
 
 void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right) {
-  int i, j, pivot;
+  int i, j;
+  float pivot;
   struct ngrid_info temp;
   pivot = ngrid_s[(int)(left + right) / 2].nz_start;
   i = left;
@@ -353,7 +354,7 @@ void set_default_parameter(float S) {
   ///////////////////////////////////////////////////
   ds_nz = float_1d_memory_for_parameter(mksize);
   for (i = 0; i < mksize; i++)
-    ds_nz[i] = lcm_temp / ngrid_lattice_nz_i(i); //////////
+    ds_nz[i] = (float)lcm_temp / ngrid_lattice_nz_i(i); //////////
   ///////////////////////////////////////////////////
   printf("creating non uniform z map ok\n"); ////////////
   stream = fopen("dsz_map.dat", "wt");
@@ -500,13 +501,16 @@ void generate_base_grid() {
   for (i = 1; i <= ngrid_n; i++) {
     if (i == 1)
       base_grid[1] =
-          (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
-          (ngrid[0].nz_start + 0.5 * zsize) * lattice_z;
+          floor(0.5 +
+                (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
+                (ngrid[0].nz_start + 0.5 * zsize) * lattice_z);
     else
-      base_grid[i] = base_grid[i - 1] +
-                     (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
-                         ngrid[i - 1].lattice_nz +
-                     (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) * lattice_z;
+      base_grid[i] =
+          base_grid[i - 1] +
+          floor(0.5 +
+                (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
+                    ngrid[i - 1].lattice_nz +
+                (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) * lattice_z);
     printf("base_grid[%d] = %d\n", i, base_grid[i]);
   }
 }
-- 
2.43.0


From 3d7915d89b7744854a10ec4f35b4eaf191b86490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 53/84] fix: interband absorption sets in at the interband
 frequency of its own component

---
 openms/maxwell/hyperbolic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openms/maxwell/hyperbolic.py b/openms/maxwell/hyperbolic.py
index bb06be7..bfecbe5 100644
--- a/openms/maxwell/hyperbolic.py
+++ b/openms/maxwell/hyperbolic.py
@@ -95,9 +95,7 @@ class hyperbolicBase(object):
             sigma = 1j * self.plasmon_freqs / (w + 1j * self.damping)
             tmp = abs((w - self.interband_freqs) / (w + self.interband_freqs))
             tmp = 1j / numpy.pi * numpy.log(tmp)
-            for i in range(self.plasmon_freqs.size):
-                if w > self.plasmon_freqs[i]:
-                    tmp += 1.0
+            tmp = tmp + (w > self.interband_freqs)
             sigma += tmp * self.interband_strengths
             outstring = format_array_line(sigma)
             print(f"w, sigma = {w:.3f} {outstring}")
-- 
2.43.0


From 4fb8e6967bbca04a955059eafa9a4938085440ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 54/84] fix: g tensor of CoPcOH8 is missing from the library

---
 openms/spindy/gtensorlibs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/spindy/gtensorlibs.py b/openms/spindy/gtensorlibs.py
index edb82cf..e9bd100 100644
--- a/openms/spindy/gtensorlibs.py
+++ b/openms/spindy/gtensorlibs.py
@@ -60,6 +60,7 @@ g = f"""
               0.1081040    2.2957483   -0.0233811
               0.0608570   -0.0234408    2.3241520
 """
+gtensor_data['CoPcOH8'] = string_to_numpy_array(g)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0adbd6cfd37a8c3a0766d6268b023dd03eca61fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 55/84] fix: spins keep the splitting parameters they are given

---
 openms/spindy/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/spindy/spin.py b/openms/spindy/spin.py
index b7bedfe..a744951 100644
--- a/openms/spindy/spin.py
+++ b/openms/spindy/spin.py
@@ -137,8 +137,8 @@ class Spin(object):
 
         self.coord = coord
         self.spin = 0.5
-        self.D = 0.0
-        self.E = 0.0
+        self.D = D
+        self.E = E
         self.alpha = None
         self.beta = None
         self._zfs = None
-- 
2.43.0


From c5ddb58c7d3f587bf1b398c74057eb9c10afc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 56/84] fix: seeding the random numbers of the dynamics module
 fails

---
 openms/qmd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/__init__.py b/openms/qmd/__init__.py
index 36a433d..4dda029 100644
--- a/openms/qmd/__init__.py
+++ b/openms/qmd/__init__.py
@@ -100,7 +100,7 @@ rng = np.random.Generator(np.random.PCG64(SEED))
 def set_seed(seed):
     """Sets the seed for the random number generator used by the md module"""
     global rng
-    rng = np.random.Generator(bd.random.PCG64(seed))
+    rng = np.random.Generator(np.random.PCG64(seed))
 
 
 # from .tsh import TrajectorySurfaceHopping as SH
-- 
2.43.0


From 82d0de4abc480019a9600414277dc4dbc20822dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 57/84] fix: temperature of several molecules uses the kinetic
 energy of each

---
 openms/qmd/bomd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index 7acd59f..efa8a79 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -190,7 +190,7 @@ class BaseMD(object):
         ekin = 0
         ndof = 0
         for mol in self.mol:
-            self.mol.get_ekin()
+            mol.get_ekin()
             ekin += mol.ekin
             ndof += mol.ndof
         return ekin * 2.0 / ndof * au2K
-- 
2.43.0


From 4fd539cc88c4a9eb0157b028f8539a0592d4b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 58/84] fix: timed functions lose their return value

---
 openms/lib/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index 0406034..74c4fef 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -211,9 +211,10 @@ def wall_time(func):
     @wraps(func)
     def timer(*args, **kwargs):
         tbegin = time.time()
-        func(*args, **kwargs)
+        result = func(*args, **kwargs)
         tend = time.time()
         print(f"{func.__name__} : Elapsed time = {tend - tbegin} seconds", flush=True)
+        return result
 
     return timer
 
-- 
2.43.0


From a3f7c69b54e6a19ad33c5b944187b5e8a4a9e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 59/84] fix: DIIS without variational parameters fails

---
 openms/mqed/diis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/diis.py b/openms/mqed/diis.py
index f6a1592..afcf55e 100644
--- a/openms/mqed/diis.py
+++ b/openms/mqed/diis.py
@@ -44,7 +44,7 @@ class CDIIS(lib.diis.DIIS):
 
         errvec = get_err_vec(s, d, f, self.Corth, var_grad)
         logger.debug1(self, 'diis-norm(errvec)=%g', numpy.linalg.norm(errvec))
-        params = numpy.hstack([f.ravel(), var.ravel()])
+        params = f if var is None else numpy.hstack([f.ravel(), var.ravel()])
         xnew = lib.diis.DIIS.update(self, params, xerr=errvec)
         if self.rollback > 0 and len(self._bookkeep) == self.space:
             self._bookkeep = self._bookkeep[-self.rollback:]
-- 
2.43.0


From 42f99c76d2dacd312fd38e8fc53242e1001f9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 60/84] fix: removing linear dependencies fails when it is
 needed

---
 openms/lib/scipy_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/scipy_helper.py b/openms/lib/scipy_helper.py
index 749add0..822b700 100644
--- a/openms/lib/scipy_helper.py
+++ b/openms/lib/scipy_helper.py
@@ -62,6 +62,7 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
     if scond > max_cond: max_cond = scond
 
     from openms.lib import boson
+    gconds = []
     if isinstance(mf.qed, boson.Boson):
         gconds = cond(mf.qed.gmat)
         max_gcond = numpy.max(gconds)
@@ -71,9 +72,9 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
         return mf
 
     logger.info(mf, 'Applying remove_linear_dep on SCF object.')
-    logger.debug(mf, 'Overlap condition number %g', cond)
+    logger.debug(mf, 'Overlap condition number %g', scond)
     for a in range(len(gconds)):
-        logger.debug(mf, 'mode #%d gmat condition number %g', ((a+1), gconds[a]))
+        logger.debug(mf, 'mode #%d gmat condition number %g', a+1, gconds[a])
 
     if (max_cond < 1./numpy.finfo(s.dtype).eps and not force_pivoted_cholesky):
         logger.info(mf, 'Using canonical orthogonalization with threshold {}'.format(threshold))
-- 
2.43.0


From f4a161e00c992dd4a7024e73645dc5307f61a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 61/84] fix: initial orbitals of SC-QED-HF are orthonormal

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..2620733 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -488,7 +488,7 @@ class RHF(qedhf.RHF):
                                          cholesky_threshold=CHOLESKY_THRESHOLD,
                                          force_pivoted_cholesky=FORCE_PIVOTED_CHOLESKY)
         s1e = self.get_ovlp(self.mol)
-        self.P, self.L = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
+        self.L, self.P = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
         self.n_oao = self.P.shape[1]
 
         return self
-- 
2.43.0


From 11e9e7b0a134fb45ad5360ffbfba792317127f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 62/84] fix: output of every earlier run of a process is kept

---
 openms/qmd/bomd.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index efa8a79..212ba9b 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -131,7 +131,7 @@ class BaseMD(object):
             # For MD output directory
             for md_idir in md_dir:
                 if os.path.exists(md_idir):
-                    shutil.move(md_idir, md_idir + "_old_" + str(os.getpid()))
+                    shutil.move(md_idir, self._backup_name(md_idir))
                 os.makedirs(md_idir)
 
                 # self.touch_file(md_idir)
@@ -139,7 +139,7 @@ class BaseMD(object):
             # For QM output directory
             for qm_idir in qm_log_dir:
                 if os.path.exists(qm_idir):
-                    shutil.move(qm_idir, qm_idir + "_old_" + str(os.getpid()))
+                    shutil.move(qm_idir, self._backup_name(qm_idir))
                 if save_qm_log:
                     os.makedirs(qm_idir)
 
@@ -150,6 +150,16 @@ class BaseMD(object):
         else:
             return base_dir, md_dir, qm_log_dir
 
+    @staticmethod
+    def _backup_name(path):
+        r"""Name which is not in use yet for keeping a directory of an earlier run"""
+        old = name = path + "_old_" + str(os.getpid())
+        count = 0
+        while os.path.exists(name):
+            count += 1
+            name = f"{old}_{count}"
+        return name
+
     # def compute_accel(self):
     #    self.accel = self.force / self.mol.mass.reshape(-1,1)
 
-- 
2.43.0


From fd510af3a4df5eaaa4950a094782158b2c804824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:36 +0000
Subject: [PATCH 63/84] fix: polarization vectors of the caller are left alone

They were normalised in place: scanning a coupling strength with one array
used unit coupling from the second calculation on, and vectors of integers
were truncated.
---
 openms/lib/boson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index f873bf0..fe97e0b 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -634,8 +634,9 @@ class Boson(object):
         # Cavity mode polarization vectors
         self.vec = None
 
-        if isinstance(vec, list):
-            vec = numpy.asarray(vec, dtype=float)
+        # (work on a copy, the vectors are normalized below)
+        if isinstance(vec, (list, numpy.ndarray)):
+            vec = numpy.array(vec, dtype=float)
 
         if (not isinstance(vec, numpy.ndarray)
             or vec.shape != (self.nmodes, 3)):
-- 
2.43.0


From 2a360e5a7547dd1df3f2191b524822ec54bb5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:36 +0000
Subject: [PATCH 64/84] fix: a single mode frequency can be given as a number

---
 openms/lib/boson.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index fe97e0b..7668122 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -581,20 +581,19 @@ class Boson(object):
         # Cavity modes and frequencies
         self.omega = self.nmodes = None
 
-        if isinstance(omega, list):
+        if isinstance(omega, float):
+            omega = numpy.asarray([omega], dtype=float)
+        elif isinstance(omega, list):
             omega = numpy.asarray(omega, dtype=float)
 
-        if not isinstance(omega, (float, numpy.ndarray)):
+        if not isinstance(omega, numpy.ndarray):
             err_msg = f"Parameter 'omega' is not float, " + \
                       f"list of floats, or ndarray of floats."
             logger.error(self, err_msg)
             raise ValueError(err_msg)
 
         else:
-            if isinstance(omega, float):
-                self.omega = numpy.asarray(omega, dtype=float)
-            else:
-                self.omega = omega.copy()
+            self.omega = omega.copy()
             self.nmodes = omega.size
 
             # Cavity mode photon occupation numbers
-- 
2.43.0


From cbc0f6a39f75bc4b8e1b3ba49d6728cbbcd39f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 65/84] fix: objects that are no molecules are refused with the
 documented error

---
 openms/lib/boson.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 7668122..6fe32c5 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -541,7 +541,6 @@ class Boson(object):
             err_msg = f"Parameter 'mol' is not an instance " + \
                       f"of MoleBase class, part of the PySCF " + \
                       f"quantum chemistry software package."
-            logger.error(self, err_msg)
             raise ValueError(err_msg)
 
         else:
-- 
2.43.0


From d2d810025daf8e403e8c185bc86429ec18d7ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:19 +0000
Subject: [PATCH 66/84] fix: Davidson eigensolver is shadowed by an empty stub
 and lacks its helpers

---
 openms/solvers/linalg.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/openms/solvers/linalg.py b/openms/solvers/linalg.py
index 1f6d829..8669b36 100644
--- a/openms/solvers/linalg.py
+++ b/openms/solvers/linalg.py
@@ -1,4 +1,7 @@
+import sys
+
 import numpy
+import scipy.linalg
 
 
 r"""
@@ -9,6 +12,16 @@ Linear algebra
 """
 
 from pyscf.lib import logger
+from pyscf.lib.linalg_helper import (
+    SORT_EIG_BY_SIMILARITY,
+    LinearDependenceError,
+    _gen_x0,
+    _normalize_xt_,
+    _qr,
+    _sort_by_similarity,
+    _sort_elast,
+    _Xlist,
+)
 from openms import __config__
 
 SAFE_EIGH_LINDEP = getattr(__config__, 'linalg_safe_eigh_lindep', 1e-15)
@@ -525,32 +538,6 @@ def make_diag_precond(diag, level_shift=1e-3):
     return precond
 
 
-def davidson1(
-    matvec,
-    x0,
-    precond,
-    tol=1e-12,
-    max_cycle=50,
-    max_space=12,
-    lindep=DAVIDSON_LINDEP,
-    max_memory=MAX_MEMORY,
-    dot=numpy.dot,
-    callback=None,
-    nroots=1,
-    lessio=False,
-    pick=None,
-    verbose=logger.WARN,
-    follow_state=FOLLOW_STATE,
-    tol_residual=None,
-    fill_heff=_fill_heff_hermitian,
-):
-    r"""Davidson diagonalization method to solve  a c = e c.
-    Ref:
-
-    """
-    pass
-
-
 def lanczos(
     matvec,
     x0,
-- 
2.43.0


From 294624bc89cb750619f691b025bf416fd7ee04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:35 +0000
Subject: [PATCH 67/84] fix: Davidson subspace loses its orthogonality and
 gives spurious eigenvalues

---
 openms/solvers/linalg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/solvers/linalg.py b/openms/solvers/linalg.py
index 8669b36..23d734f 100644
--- a/openms/solvers/linalg.py
+++ b/openms/solvers/linalg.py
@@ -487,6 +487,8 @@ def davidson1(
                 xt[k] = None
 
         xt, norm_min = _normalize_xt_(xt, xs, lindep, dot)
+        # one pass leaves components along xs when it removed most of a vector
+        xt = _normalize_xt_(_qr(xt, dot, lindep)[0], xs, lindep, dot)[0]
         log.debug(
             "davidson %d %d  |r|= %4.3g  e= %s  max|de|= %4.3g  lindep= %4.3g",
             icyc,
-- 
2.43.0


From 35cb8b98a70f0274a2c83a951424cc105fa78530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 68/84] fix: SC- and VT-QED-HF densities in the original frame

---
 openms/mqed/scqedhf.py | 14 ++++++--------
 openms/mqed/vtqedhf.py | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 2620733..a01d1a7 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1149,27 +1149,25 @@ class RHF(qedhf.RHF):
 
         # transform rho into dipole basis
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
-        rho_DO = unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                zalpha = self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(factorial(n)))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = unitary_transform(Uinv, rho_tmp)
+                rho_tmp = unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho)
+        rho_b = numpy.einsum("mpnq,pq->mn", rho_tot, self.get_ovlp()) / numpy.sum(mo_occ)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..e76b6df 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -644,30 +644,28 @@ class RHF(scqedhf.RHF):
         imode = 0
 
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
         # transform into Dipole
-        rho_DO = scqedhf.unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         tau = numpy.exp(self.qed.squeezed_var[imode])
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = tau * self.qed.couplings_var[imode] * self.eta[imode]
+                zalpha = tau * self.eta[imode]
                 zalpha /= self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
-                # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(math.factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(math.factorial(n)))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = scqedhf.unitary_transform(Uinv, rho_tmp)
+                rho_tmp = scqedhf.unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        rho_b = numpy.einsum("mpnq,pq->mn", rho_tot, self.get_ovlp()) / numpy.sum(mo_occ)
 
         return rho_tot, rho_e, rho_b
 
-- 
2.43.0


From f22c1445db01a99d623992f504befb35963db893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 69/84] fix: radiated powers are written as pointers

---
 openms/lib/fdtd/farfield.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index bd77651..9ccaec0 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -1702,19 +1702,19 @@ void print_radiation(float Nfree, float k, float Eta, float **radint,
   ///------------( Total Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_tot_name, "wt");
-  fprintf(stream, "%g", P_tot);
+  fprintf(stream, "%g", *P_tot);
   fclose(stream);
 
   ///------------( Etheta Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_the_name, "wt");
-  fprintf(stream, "%g", P_the);
+  fprintf(stream, "%g", *P_the);
   fclose(stream);
 
   ///------------( Ephi Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_phi_name, "wt");
-  fprintf(stream, "%g", P_phi);
+  fprintf(stream, "%g", *P_phi);
   fclose(stream);
 
   ///------------( Etheta intensity )------------
-- 
2.43.0


From 8dce5059a1de63222272cfc157f8a3a94078857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 70/84] fix: x component of the far field uses the impedance of
 vacuum in any medium

---
 openms/lib/fdtd/farfield.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index 9ccaec0..be790cd 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -1525,10 +1525,10 @@ void set_radiation_variable(
     for (i = 0; i < (col_s + 1); i++) {
       ex_real[i][j] =
           -(Np_s_real[i][j] - Lt_s_real[i][j] / Eta) * sinp[i][j] +
-          (Nt_s_real[i][j] + Lp_s_real[i][j] / 377) * cost[i][j] * cosp[i][j];
+          (Nt_s_real[i][j] + Lp_s_real[i][j] / Eta) * cost[i][j] * cosp[i][j];
       ex_imag[i][j] =
           -(Np_s_imag[i][j] - Lt_s_imag[i][j] / Eta) * sinp[i][j] +
-          (Nt_s_imag[i][j] + Lp_s_imag[i][j] / 377) * cost[i][j] * cosp[i][j];
+          (Nt_s_imag[i][j] + Lp_s_imag[i][j] / Eta) * cost[i][j] * cosp[i][j];
       ey_real[i][j] =
           (Np_s_real[i][j] - Lt_s_real[i][j] / Eta) * cosp[i][j] +
           (Nt_s_real[i][j] + Lp_s_real[i][j] / Eta) * cost[i][j] * sinp[i][j];
-- 
2.43.0


From 6a3b50669d8f16d2127695951f7beb4798176d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 71/84] fix: last row and column of far-field arrays are not
 set for odd window sizes

---
 openms/lib/fdtd/farfield.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index be790cd..f9bcb03 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -197,8 +197,8 @@ void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm) {
   make_file_name(mm);
   set_global_variable(NROW, OMEGA[mm], Nfree, &POLROT, &dir, &Eta, &k);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   //////////////////////
   //---- Ex field ----//
@@ -1250,8 +1250,8 @@ void Nx_data_shrink(int row, int col, float **Nx_real, float **Nx_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1277,8 +1277,8 @@ void Ny_data_shrink(int row, int col, float **Ny_real, float **Ny_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1304,8 +1304,8 @@ void Lx_data_shrink(int row, int col, float **Lx_real, float **Lx_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1331,8 +1331,8 @@ void Ly_data_shrink(int row, int col, float **Ly_real, float **Ly_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1460,8 +1460,8 @@ void set_radiation_variable(
   int row_s, col_s; // shrinked row & col
   int half_row_s, half_col_s;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1552,8 +1552,8 @@ void calc_radiation(float Nfree, float k, float Eta, float **Nt_s_real,
   int row_s, col_s; // shrinked row & col
   int half_row_s, half_col_s;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1680,8 +1680,8 @@ void print_radiation(float Nfree, float k, float Eta, float **radint,
   int half_row_s, half_col_s;
   FILE *stream;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
-- 
2.43.0


From 1b95db78082526c62f68a198feefd178c38dfec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 72/84] fix: padded far-field arrays are shifted along y when
 the layers differ

---
 openms/lib/fdtd/output.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 1d053bc..c6e0270 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1849,7 +1849,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ex_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ex_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1864,7 +1864,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ex_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ex_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1880,7 +1880,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ey_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ey_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1895,7 +1895,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ey_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ey_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1911,7 +1911,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hx_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hx_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1926,7 +1926,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hx_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hx_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1942,7 +1942,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hy_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hy_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1953,11 +1953,11 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (NROW - deltac)) &&
+          (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hy_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hy_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
-- 
2.43.0


From d14760e42dcbb904cee90fb089081aaa95e46519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 73/84] fix: zero padding loses the first row and column and
 reads past odd-sized data

---
 openms/lib/fdtd/output.c | 56 +++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index c6e0270..18492f1 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -2082,14 +2082,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ex_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2105,14 +2104,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ex_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2128,14 +2126,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ey_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2151,14 +2148,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ey_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2176,14 +2172,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hx_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2199,14 +2194,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hx_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2222,14 +2216,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
@@ -2245,14 +2238,13 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (deltac + col)) &&
+          (j >= deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
-      else if (i == (NROW - 1))
-        fprintf(stream, "%lf\t\n", 0.0);
       else
         fprintf(stream, "%lf\t", 0.0);
     }
+    fprintf(stream, "\n");
   }
   fclose(stream);
 
-- 
2.43.0


From 038f9e9f613352c1c1ffdef64cd5a3ec8301d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 74/84] fix: far-field routines leak the rows of their arrays

---
 openms/lib/fdtd/farfield.c | 8 ++++++++
 openms/lib/fdtd/output.c   | 2 ++
 openms/lib/fdtd/transmap.c | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index f9bcb03..b3c8eca 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -516,6 +516,14 @@ void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm) {
     free(ey_real[i]);
     free(ex_imag[i]);
     free(ey_imag[i]);
+    free(cosp[i]);
+    free(sinp[i]);
+    free(cost[i]);
+    free(radint[i]);
+    free(etheta[i]);
+    free(ephi[i]);
+    free(eintx[i]);
+    free(einty[i]);
   }
   free(ex_real);
   free(ey_real);
diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 18492f1..88e95d2 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -2248,6 +2248,8 @@ void make_2n_size(int NROW, int mm) {
   }
   fclose(stream);
 
+  for (i = 0; i < col; i++)
+    free(source[i]);
   free(source);
 }
 
diff --git a/openms/lib/fdtd/transmap.c b/openms/lib/fdtd/transmap.c
index c6a1fd7..7d36374 100755
--- a/openms/lib/fdtd/transmap.c
+++ b/openms/lib/fdtd/transmap.c
@@ -34,6 +34,10 @@ void transform_farfield(int NROW, int tnum, char *name, int mm) {
   tr_writing_data(findata, tnum, name, mm);
   printf("writing ok ...\n");
 
+  for (i = 0; i < rcnum; i++)
+    free(umdata[i]);
+  for (i = 0; i < tnum; i++)
+    free(findata[i]);
   free(umdata);
   free(findata);
 
@@ -55,6 +59,8 @@ void add_farfield(int tnum, char *name) {
 
   ad_writing_data(sumdata, tnum, name);
 
+  for (i = 0; i < tnum; i++)
+    free(sumdata[i]);
   free(sumdata);
 }
 
-- 
2.43.0


From b16bc66ef90ce09ce815149c32783dc87fe214f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 75/84] fix: number of updates per period is truncated before
 the division

---
 openms/lib/fdtd/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 88e95d2..a5fdcbf 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -117,7 +117,7 @@ void real_space_param(float a_nm, float w_n) {
 }
 
 int get_period_in_update(float w_n) {
-  return ((int)(S_factor * ds_x * lattice_x) / w_n);
+  return ((int)(S_factor * ds_x * lattice_x / w_n));
 }
 
 void out_epsilon(char *plane, float value, char *name) {
-- 
2.43.0


From d6f19392ea8cd2410e9869f63f99dca45e07364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 76/84] fix: loss at a frequency reads outside its arrays in
 mirrored domains

---
 openms/lib/fdtd/energy.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index 9b25fd0..7c95268 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -231,6 +231,7 @@ void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
                                  float WC, float lattice_n) {
   FILE *stream_Eloss;
   int i, j, k;
+  int mi, mj, mk;
   double Eloss = 0.0;
   double Im_eps;
   double w, wr;
@@ -268,10 +269,15 @@ void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
   for (i = x_n; i <= x_p; i++)
     for (j = y_n; j <= y_p; j++)
       for (k = z_n; k <= z_p; k++) {
-        Im_eps = temp_fac * temp_fac * temp_fac * momega[i][j][k] *
-                 momega[i][j][k] * mgamma[i][j][k] /
-                 (wr * wr * wr +
-                  wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);
+        // mirrored halves have the medium of the stored half
+        mi = (pisize <= i && (xparity == 1 || xparity == -1)) ? isize - i : i;
+        mj = (pjsize <= j && (yparity == 1 || yparity == -1)) ? jsize - j : j;
+        mk = (pksize <= k && (zparity == 1 || zparity == -1)) ? ksize - k : k;
+        Im_eps =
+            temp_fac * temp_fac * temp_fac * momega[mi][mj][mk] *
+            momega[mi][mj][mk] * mgamma[mi][mj][mk] /
+            (wr * wr * wr + wr * mgamma[mi][mj][mk] * mgamma[mi][mj][mk] *
+                                temp_fac * temp_fac);
         Eloss = Eloss + 2 * w * eo * Im_eps * ds_x * ds_y * ds_nz[k] *
                             grid_value("E^2", i, j, k);
       }
-- 
2.43.0


From 3c4d2c24e92ec4fc166a8195ccc63dd6379fa616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 77/84] fix: magnetic drive of complex beams and lines carried
 the admittance twice

---
 openms/lib/fdtd/source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/source.c b/openms/lib/fdtd/source.c
index 7edeab3..b1a0389 100755
--- a/openms/lib/fdtd/source.c
+++ b/openms/lib/fdtd/source.c
@@ -628,7 +628,7 @@ void Gaussian_dipole_source_beam(char *component, int i, int j, float z,
         (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
       iHy[i][j][k] =
           iHy[i][j][k] + amp * iGauss_amp(frequency, phase, to, tdecay) *
-                             sqrt(eo / uo) * sqrt(eo / uo) / 4;
+                             sqrt(eo / uo) / 4;
       if (k >= 1)
         iHy[i][j][k - 1] =
             iHy[i][j][k - 1] +
@@ -931,7 +931,7 @@ void Gaussian_dipole_source_line(char *component, float x, int j, float z,
     if ((use_periodic_x == 1 || use_periodic_y == 1) &&
         (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
       iHy[i][j][k] = iHy[i][j][k] + iGauss_amp(frequency, phase, to, tdecay) *
-                                        sqrt(eo / uo) * sqrt(eo / uo) / 4;
+                                        sqrt(eo / uo) / 4;
       if (k >= 1)
         iHy[i][j][k - 1] =
             iHy[i][j][k - 1] +
-- 
2.43.0


From c5939d43039022377ee0f40cc5a63175353368f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:15 +0000
Subject: [PATCH 78/84] fix: SCF with level shift or damping called names that
 do not exist

get_fock of the QED-HF classes called level_shift and damping, neither of
which is defined or imported, so mf.level_shift or mf.damp ended in a
NameError.  Use PySCF's level shift and the Fock damping of its kernel.
---
 openms/mqed/qedhf.py   | 13 +++++++++----
 openms/mqed/scqedhf.py |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index edefc9d..cd4c9ce 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -200,6 +200,7 @@ def kernel(
     mf.check_sanity()
 
     mf.cycles = 0
+    fock_last = None
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
     for cycle in range(mf.max_cycle):
         dm_last = dm
@@ -211,7 +212,7 @@ def kernel(
         mf.grad_var_params(dm)
 
         h1e = mf.get_hcore(mol, dm)
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
 
         # Diagonalize Fock matrix and update density matrix
         mo_energy, mo_coeff = mf.eig(fock, s1e)
@@ -230,6 +231,7 @@ def kernel(
         mf.qed.update_boson_coeff(dm)
 
         # Check SCF convergence
+        fock_last = fock
         fock = mf.get_fock(h1e, s1e, vhf, dm)  # = h1e + vhf, no DIIS
         norm_eta = mf.norm_var_params()
         norm_gorb = numpy.linalg.norm(mf.get_grad(mo_coeff, mo_occ, fock))
@@ -311,6 +313,7 @@ def get_fock(
     diis_start_cycle=None,
     level_shift_factor=None,
     damp_factor=None,
+    fock_last=None,
 ):
     r"""
     Return Fock matrix in AO basis, :math:`F = h_{core} + V_{HF}`.
@@ -357,6 +360,8 @@ def get_fock(
     damp_factor : float
         Damping factor for Fock matrix, **optional**
         ``default = 0``.
+    fock_last : :class:`~numpy.ndarray`
+        Fock matrix of the previous iteration, for damping.
 
     Return
     ------
@@ -386,14 +391,14 @@ def get_fock(
     if dm is None: dm = mf.make_rdm1()
     if s1e is None: s1e = mf.get_ovlp()
 
-    if 0 <= cycle < diis_start_cycle - 1 and abs(damp_factor) > 1e-4:
-        f = damping(s1e, dm * 0.5, f, damp_factor) # TODO: will produce error if damping is used
+    if 0 <= cycle < diis_start_cycle - 1 and abs(damp_factor) > 1e-4 and fock_last is not None:
+        f = f * (1.0 - damp_factor) + fock_last * damp_factor
     if diis is not None and cycle >= diis_start_cycle:
         variables, gradients = mf.pre_update_var_params()
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index a01d1a7..b2d1ed1 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -303,6 +303,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
 
     mf.cycles = 0
+    fock_last = None
     for cycle in range(mf.max_cycle):
         time0 = time.time()
         dm_last = dm
@@ -324,7 +325,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         time_hcore = time.time() - time1
 
         time1 = time.time()
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
         time_fock = time.time() - time1
 
         mo_energy, mo_coeff = mf.eig(fock, s1e)
@@ -346,6 +347,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         # Here Fock matrix is h1e + vhf, without DIIS.  Calling get_fock
         # instead of the statement "fock = h1e + vhf" because Fock matrix may
         # be modified in some methods.
+        fock_last = fock
         time1 = time.time()
         fock = mf.get_fock(h1e, s1e, vhf, dm)  # = h1e + vhf, no DIIS
         time_fock += time.time() - time1
-- 
2.43.0


From e0eeb41ee7c919ac9f66836192fecb5fed120fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 79/84] fix: QED-HF without stored repulsion integrals recursed
 without end

RHF.get_jk called itself instead of the parent's get_jk when the integrals
are not held in memory (small max_memory or a large basis).
---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index cd4c9ce..6ae91ee 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -590,7 +590,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 48671772d24dd89bb0561935b7c547e14da4e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 80/84] fix: cavity kept the integrals of the first molecule

reset(mol) and as_scanner(), which PySCF provides for every mean-field
object, moved the molecule but left the dipole and quadrupole integrals of
the cavity, and the displaced basis of SC-/VT-QED-HF, at the first geometry:
every later energy was wrong.
---
 openms/lib/boson.py    | 20 ++++++++++++++++++++
 openms/mqed/qedhf.py   | 12 ++++++++++++
 openms/mqed/scqedhf.py | 12 ++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 6fe32c5..b82bd75 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -795,6 +795,20 @@ class Boson(object):
     # General boson methods
     # ---------------------
 
+    def reset(self, mol=None):
+        r"""Drop everything that was computed for the previous molecule."""
+        if mol is not None:
+            self._mol = mol
+            self.nelectron = mol.nelectron
+            self.nao = mol.nao_nr()
+            for key in ("spin", "intor", "symmetry", "intor_symmetric", "_pseudo", "_ecpbas",
+                        "_add_suffix", "nao_nr", "ao_loc_nr", "_atm", "_bas", "_env",
+                        "energy_nuc", "nelec"):
+                setattr(self, key, getattr(mol, key))
+        self.dipole_ao = None
+        self.quadrupole_ao = None
+        return self
+
 
     def displacement_matrix(self, mode, factor, pdm, scale_by_exp=True):
         r"""
@@ -1408,6 +1422,12 @@ class Photon(Boson):
 
         return
 
+    def reset(self, mol=None):
+        super().reset(mol)
+        self.gmat = None
+        self.q_lambda_ao = None
+        return self
+
     # --------------
     # QED-HF methods
     # --------------
diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 6ae91ee..df2a748 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -464,6 +464,18 @@ class RHF(hf.RHF):
         return
 
 
+    def reset(self, mol=None):
+        r"""Reset the molecule, of this object and of its cavity (see :class:`~lib.boson.Boson`)."""
+        super().reset(mol)
+        self.nao = self.mol.nao_nr()
+        self.bare_h1e = None
+        self.oei = None
+        self.qed.reset(self.mol)
+        self.qed.get_gmatao()
+        self.qed.get_q_dot_lambda()
+        return self
+
+
     def get_oei_AO(self):
         r"""return the effective oei in AO for usage in QMC
         """
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index b2d1ed1..770e025 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -461,6 +461,18 @@ class RHF(qedhf.RHF):
         self.DIIS = diis.SCF_DIIS
 
 
+    def reset(self, mol=None):
+        super().reset(mol)
+        self.ltensor = None
+        self.ao2dipole = numpy.zeros_like(self.qed.gmat)
+        self.dm_do = numpy.zeros_like(self.qed.gmat)
+        self.eta = None
+        self.eta_grad = None
+        self.g_dipole = None
+        self.P = self.L = None
+        return self
+
+
     def initialize_bare_fock(self, dm=None):
         r"""Return non-QED Fock matrix from provided or initial guess ``dm``."""
         if dm is None:
-- 
2.43.0


From 81149663260773c416dbd62b9bfa3d34b8b7cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 81/84] fix: VT-QED-HF without the dipole self-energy term left
 out its residue

---
 openms/lib/boson.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index b82bd75..9c21ef1 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1570,8 +1570,10 @@ class Photon(Boson):
         if self.use_cs:
             self.update_cs(dm)
 
-        gvar2 = numpy.ones(self.nmodes)
+        gvar2 = numpy.ones(self.nmodes) # DSE
+        zvar2 = numpy.ones(self.nmodes) # coherent-state displacement
         if residue:
+            zvar2 = self.couplings_res**2
             if self.add_dse:
                 # (1-f) ^2
                 gvar2 = self.couplings_res**2 # element-wise
@@ -1580,12 +1582,13 @@ class Photon(Boson):
                 gvar2 = self.couplings_var * (self.couplings_var - 2.0)
             dg = - 2.00 * self.couplings_res # 2(f-1)
 
-        oei = - lib.einsum("Xpq, X->pq", self.gmat, gvar2 * self.z_alpha)
+        oei = - lib.einsum("Xpq, X->pq", self.gmat, zvar2 * self.z_alpha)
         if compute_grad:
             oei_grad = - lib.einsum("Xpq, X->pq", self.gmat, dg * self.z_alpha)
 
-        # the following part comes from the DSE
-        if self.add_dse:
+        # the following part comes from the DSE (the transformation
+        # leaves a residue of it even if the Hamiltonian has none)
+        if self.add_dse or residue:
             if self.complete_basis:
                 tmp_term = - self.q_lambda_ao
                 # oei -= 0.5 * lib.einsum("Xpq, X->pq", self.q_lambda_ao, gvar2)
@@ -1602,7 +1605,7 @@ class Photon(Boson):
 
         # FIXME: this will cause problem to VT/VSQ gradient with respect to f as e_boson is not function of f
         # DSE + boson energy (beyond |0> state)
-        z2s = (0.5 * numpy.sum(self.z_alpha**2 * gvar2) + self.e_boson)* s1e/self._mol.nelectron
+        z2s = (0.5 * numpy.sum(self.z_alpha**2 * zvar2) + self.e_boson)* s1e/self._mol.nelectron
         # z2s = (0.5 * numpy.sum(self.z_alpha**2 * gvar2))* s1e/self._mol.nelectron
         oei += z2s
         if compute_grad:
-- 
2.43.0


From 3c638fa7dbb4753803361e3edb93c4c9539bb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 82/84] fix: on-the-fly Cholesky factors of Cartesian bases
 asked for spherical integrals

---
 openms/qmc/tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index fa7756c..1985db4 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -412,7 +412,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
     # print("full bock is used in cholesky decomposition")
 
     if eri is None:
-        eri = mol.intor('int2e_sph', aosym='s1')
+        eri = mol.intor('int2e', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
         eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
@@ -484,7 +484,8 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
     for i in range(mol.nbas):
         l = mol.bas_angular(i)
         nc = mol.bas_nctr(i)
-        end_index += (2 * l + 1) * nc
+        nf = (l + 1) * (l + 2) // 2 if mol.cart else 2 * l + 1
+        end_index += nf * nc
         # print("test-yz:  agular of each basis = ", l)
         # print("test-yz:  end index            = ", end_index)
         indices4bas.append(end_index)
@@ -493,7 +494,7 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
     ndiag = 0
     for i in range(mol.nbas):
         shls = (i, i + 1, 0, mol.nbas, i, i + 1, 0, mol.nbas)
-        buf = mol.intor("int2e_sph", shls_slice=shls)
+        buf = mol.intor("int2e", shls_slice=shls)
         di = buf.shape[0]
         diag[ndiag:ndiag + di * nao] = buf.reshape(di * nao, di * nao).diagonal()
         if g is not None:
@@ -577,7 +578,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
         v_{ijkl} = eri_{ijkl} + sum_n g_{n,ij} g_{n,kl}.
     """
     shls = (0, mol.nbas, 0, mol.nbas, sj, sj + 1, sl, sl + 1)
-    eri_col = mol.intor("int2e_sph", shls_slice=shls)
+    eri_col = mol.intor("int2e", shls_slice=shls)
 
     cj, cl = j - indices4bas[sj], l - indices4bas[sl]
     eri_chunk = eri_col[:, :, cj, cl].reshape(nao * nao)
-- 
2.43.0


From 381030b53cfd91c9605f5b3ef58522afda0e6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 83/84] fix: single-mode doubles residual of QED-CC lacked its
 quartic terms

---
 openms/mqed/qedcc_equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index a3809fc..8d0b269 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1612,6 +1612,10 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += -1.0 * einsum('klcd,bk,adlj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
     U21 += 1.0 * einsum('klcd,ak,bdlj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
     U21 += -1.0 * einsum('klcd,dk,balj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ci,bj,ak->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += 1.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += 1.0 * einsum('kc,cj,bi,ak->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
-- 
2.43.0


From 52974df12e7876905656fffa6431a7f9bf1b3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 84/84] fix: multi-mode two-photon QED-CC residual counted six
 terms twice

---
 openms/mqed/qedcc_equations.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 8d0b269..8d36b35 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -517,12 +517,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
         U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         U1n[1] += 0.625*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
-- 
2.43.0

