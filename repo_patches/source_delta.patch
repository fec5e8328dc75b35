From cc7d49f12904f541090de393a95727c81e85e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 01/19] fix: allgather_dict uses the removed alias np.int

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 9a8913d796f7c768720bc402762ae76ce8204d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 02/19] fix: out-going operators in getRIXSmap share one
 operator-result cache

---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..a290481 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,7 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From 4d6f8eef094d7b3bda4a85cbc8339e8fac264cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 03/19] fix: thermal expectation values are printed for 300 K
 instead of for the requested temperature

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..a8f0a00 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..9f3bf06 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From 38812e5592463ef6909a87277c1897d5f198a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 04/19] fix: azimuthal angle of the NIXS scattering vector
 ignores the sign of q_y and is NaN along z

---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a290481..eed0220 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -481,7 +481,7 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     # Polar (colatitudinal) coordinate
     theta = np.arccos(q[2] / qNorm)
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From bb5a3b26893301bf3c522580bc3015e2994f4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 05/19] fix: i2c returns a bath state for a negative index

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..a3bb113 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -832,7 +832,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From 412e2578bc7b708e72be660fad0254b58128b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 06/19] fix: getRIXSmap returns zeros for an unknown
 parallelization mode

---
 impurityModel/ed/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index eed0220..4a2012a 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -1127,4 +1127,6 @@ def getRIXSmap(
                     gTmp = comm.bcast(g, root=r)
                     for iwIn, gValue in gTmp.items():
                         gs[iE, tIn, :, iwIn, :] = gValue
+    else:
+        raise Exception("Incorrect value of variable parallelization_mode.")
     return gs
-- 
2.43.0


From 4c56c30853dcf6fd7cfafbb7261f7e2b13a0a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 07/19] fix: applyOp uses a stale sign for an unknown type of
 step

---
 impurityModel/ed/finite.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index a3bb113..e7bb66e 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1367,6 +1367,8 @@ def applyOp(n_spin_orbitals, op, psi, slaterWeightMin=1e-12, restrictions=None,
                         sign = remove.ubitarray(i, state_new)
                     elif action == "c":
                         sign = create.ubitarray(i, state_new)
+                    else:
+                        raise Exception("Operator type unknown: {}".format(action))
                     if sign == 0:
                         break
                     signTot *= sign
@@ -1401,6 +1403,8 @@ def applyOp(n_spin_orbitals, op, psi, slaterWeightMin=1e-12, restrictions=None,
                         sign = remove.ubitarray(i, state_new)
                     elif action == "c":
                         sign = create.ubitarray(i, state_new)
+                    else:
+                        raise Exception("Operator type unknown: {}".format(action))
                     if sign == 0:
                         break
                     signTot *= sign
@@ -1431,6 +1435,8 @@ def applyOp(n_spin_orbitals, op, psi, slaterWeightMin=1e-12, restrictions=None,
                             sign = remove.ubitarray(i, state_new)
                         elif action == "c":
                             sign = create.ubitarray(i, state_new)
+                        else:
+                            raise Exception("Operator type unknown: {}".format(action))
                         if sign == 0:
                             break
                         signTot *= sign
@@ -1483,6 +1489,8 @@ def applyOp(n_spin_orbitals, op, psi, slaterWeightMin=1e-12, restrictions=None,
                             sign = remove.ubitarray(i, state_new)
                         elif action == "c":
                             sign = create.ubitarray(i, state_new)
+                        else:
+                            raise Exception("Operator type unknown: {}".format(action))
                         if sign == 0:
                             break
                         signTot *= sign
-- 
2.43.0


From 0d6593af70c11d0767c384f2f4c9f66626a6880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 08/19] fix: eigensystem reports an unknown diagonalization
 mode instead of failing later

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index e7bb66e..9549e2b 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -108,7 +108,7 @@ def eigensystem(
         es = np.array([es[i] for i in indices])
         vecs = np.array([vecs[:, i] for i in indices]).T
     else:
-        print("Wrong diagonalization mode")
+        raise Exception("Wrong diagonalization mode")
     if rank == 0:
         print("Proceed with {:d} eigenstates.\n".format(len(es)))
     psis = [
-- 
2.43.0


From 132605c5eddffa34ec4883ecc54c937bca335204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 09/19] fix: get_hamiltonian_matrix reports an unknown mode
 instead of an unbound variable

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 9549e2b..a8517e1 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1615,6 +1615,8 @@ def get_hamiltonian_matrix(n_spin_orbitals, hOp, basis, mode="sparse_MPI"):
         # Therefor, need to broadcast and append sparse Hamiltonians
         for r in range(ranks):
             h += comm.bcast(hSparse, root=r)
+    else:
+        raise Exception("Incorrect value of variable mode.")
     return h
 
 
-- 
2.43.0


From 00a8f84e48bdc023e9a1f70d3c19cdee79df7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 10/19] fix: get_spherical_2_cubic_matrix reports an
 unsupported angular momentum

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index a8517e1..46dbe42 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -259,6 +259,8 @@ def get_spherical_2_cubic_matrix(spinpol=False, l=2):
         u[-2, 3] = -1 / np.sqrt(2)
         u[0, 4] = 1j / np.sqrt(2)
         u[-1, 4] = -1j / np.sqrt(2)
+    else:
+        raise ValueError("Cubic harmonics are only implemented for p and d orbitals.")
     if spinpol:
         n, m = np.shape(u)
         U = np.zeros((2 * n, 2 * m), dtype=complex)
-- 
2.43.0


From f06c38949f0b2efd483a052a757708b482531c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 11/19] fix: get_tridiagonal_krylov_vectors treats an unknown
 mode as sparse

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 46dbe42..2239c20 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1930,6 +1930,8 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
     # since the Hamiltonians typically are extremely sparse.
     if mode == "dense":
         h = h.toarray()
+    elif mode != "sparse":
+        raise Exception("Incorrect value of variable mode.")
     # Number of basis states
     n = len(psi0)
     # Unnecessary (and impossible) to find more than n Krylov basis vectors.
-- 
2.43.0


From 61031535aee4037d2fded8e2ac65b48f1b52a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 12/19] fix: getGreen in dict mode continues with an undefined
 vector after a breakdown

---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 4a2012a..34b1fd4 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -638,7 +638,7 @@ def getGreen(
             else:
                 # Pick normalized state v[j],
                 # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+                raise ValueError("Warning: beta==0, implementation missing!")
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
-- 
2.43.0


From 94ff66e4e41372e48a32bee40de61bb7954afad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 13/19] fix: ranks wait forever when the distributed Krylov
 iterations break down on rank 0

---
 impurityModel/ed/finite.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 2239c20..02b9459 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1969,12 +1969,14 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         for j in range(1, krylovSize):
             if rank == 0:
                 beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
-                if beta[j - 1] != 0:
-                    v[1, :] = w / beta[j - 1]
-                else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+            # All ranks have to stop if the iterations break down.
+            beta[j - 1] = comm.bcast(beta[j - 1], root=0)
+            if beta[j - 1] == 0:
+                # Pick normalized state v[j],
+                # orthogonal to v[0],v[1],v[2],...,v[j-1]
+                raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+            if rank == 0:
+                v[1, :] = w / beta[j - 1]
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
             wp_local = h.dot(v[1, :])
-- 
2.43.0


From 1d270695fbcd42605bea3f0369799d1e95ecd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 14/19] fix: distributed Krylov coefficients are only known to
 rank 0

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 02b9459..96db96b 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1987,6 +1987,8 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 alpha[j] = np.dot(np.conj(wp), v[1, :]).real
                 w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
                 v[0, :] = v[1, :]
+        # All ranks need the coefficients to evaluate the Green's function.
+        comm.Bcast(alpha, root=0)
     else:
         # Initialization...
         wp = h.dot(v[0, :])
-- 
2.43.0


From 28fc3f26d1034891769aa187a9cb346a56f18ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 15/19] fix: rounding errors in the rotated crystal field are
 reported as a non-hermitian Hamiltonian

---
 impurityModel/ed/get_spectra_using_CF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 9f3bf06..6b7be68 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -482,6 +482,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     # Convert to spherical harmonics basis
     u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=l)
     h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))
+    # Rounding errors must not break the hermiticity
+    h_imp_3d = (h_imp_3d + np.conj(h_imp_3d.T)) / 2
     # Convert from matrix to operator form.
     # Also add spin.
     h_imp_3d_operator = {}
@@ -520,6 +522,9 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))
     eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))
     eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))
+    # Rounding errors must not break the hermiticity
+    eBathVal3d = (eBathVal3d + np.conj(eBathVal3d.T)) / 2
+    eBathCon3d = (eBathCon3d + np.conj(eBathCon3d.T)) / 2
     # Convert from matrix to operator form.
     # Also introduce spin.
     h_hopp_operator = {}
-- 
2.43.0


From eb6234733f6a7ab5d7e450bae6d5102e89524175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 16/19] fix: labels of the cubic density matrix are not ordered
 as documented and printed

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 96db96b..a54ffee 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1054,7 +1054,7 @@ def getDensityMatrixCubic(nBaths, psi):
                             if eSph in nSph:
                                 tmp = np.conj(u[m, i]) * nSph[eSph] * u[k, j]
                                 if tmp != 0:
-                                    eCub = ((si, i), (sj, j))
+                                    eCub = ((i, si), (j, sj))
                                     if eCub in nCub:
                                         nCub[eCub] += tmp
                                     else:
-- 
2.43.0


From 6a98e2274b001fad9a3272b33276fbbb7eaaa8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 17/19] fix: plotSpectra rejects the documented call without a
 filename

---
 impurityModel/plotScripts/plotSpectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 2163d19..5096447 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -221,6 +221,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "filename",
         type=str,
+        nargs="?",
         default="spectra.h5",
         help="Filename containing spectra.",
     )
-- 
2.43.0


From 2d33dbb1857381225c419af174a636aa24dc884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 18/19] fix: README names a script that does not exist

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 6b561e2..2d86c27 100644
--- a/README.md
+++ b/README.md
@@ -62,7 +62,7 @@ These examples will read an non-interacting Hamiltonian from file.
 A simpler non-interacting Hamiltonian can instead be constructed by crystal-field parameters.
 This is done for NiO by typing:
 ```bash
-path/to/folder/impurityModel/scripts/run_Ni_NiO_CFparam.sh
+path/to/folder/impurityModel/scripts/run_Ni_NiO_CF.sh
 ```
 Although using a crystal-field approach is a bigger approximation, it is convinient when doing fitting to experimental spectra.
 But for more accurate simulations it is better to read in a non-interacting Hamiltonian from file, that has been constructed from e.g. DFT or DFT+DMFT simulations.
-- 
2.43.0


From 879e573e858c23505eeb77a52dd564b7ada81236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 19/19] fix: lists with a surplus entry per shell are silently
 truncated by both programs

Only nBaths and nValBaths were checked against ls, although n0imps, dnTols,
dnValBaths and dnConBaths also have one entry per angular momentum.
---
 impurityModel/ed/get_spectra.py          | 4 ++++
 impurityModel/ed/get_spectra_using_CF.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index a8f0a00..aafe69a 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -578,6 +578,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 6b7be68..0e07e0c 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -786,6 +786,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
-- 
2.43.0

