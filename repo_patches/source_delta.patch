From 56f9dd8d924bb59f10719eb323cebb887ddf6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 01/41] fix: symm_matrix: phase of {A|T} must use inv(A).T, as
 in symm_eigenvalues

---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..10998fe 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 1cdbeffd24c9433021268867b52fda1b6f5c679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 02/41] fix: transformed_g: unmatched plane wave raised a
 TypeError instead of its message

---
 irrep/gvectors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 10998fe..94f536e 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -304,10 +304,9 @@ def transformed_g(kpt, ig, RecLattice, A):
                     "Not pair found for the g-vector igTr[{i}]={igtr}"
                     .format(i=i, igtr=igTr[:,i]) +
                     "obtained when transforming the g-vector ig[{i}]={ig} "
-                    .format(i=i, ig=ig[:3,i] +
+                    .format(i=i, ig=ig[:3,i]) +
                     "with the matrix {B}, where B=inv(A).T with A={A}"
                     .format(B=B, A=A)
-                )
             )
     return rotind
 
-- 
2.43.0


From 6990230321fd6d83944ce4f7a6783651c463fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 03/41] fix: Quantum Espresso plane-wave energies used a factor
 1/2 instead of the Bohr radius

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..4b85b78 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From 3ce347fd92519725a3800998ecb9b66619fc314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 04/41] fix: Abinit lattice vectors are in Bohr and were
 reported and used as Angstrom

---
 irrep/bandstructure.py | 2 +-
 irrep/readfiles.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 4b85b78..14a3119 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -335,7 +335,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..1b24717 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -196,7 +196,7 @@ class ParserAbinit():
          usepaw,
          nspinor,
          occopt) = np.array(record[0])[[0, 4, 8, 12, 13, 11, 14, 17, 10, 15]]
-        rprimd = record[1][7:16].reshape((3, 3))
+        rprimd = record[1][7:16].reshape((3, 3)) * BOHR
         ecut = record[1][0] * Hartree_eV
         nshiftk_orig = record[2][1]
         nshiftk = record[2][2]
-- 
2.43.0


From 3f3a361d6a790becfe1bc077c6c8ca4ec1f957be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 05/41] fix: BandStructure: do not shift the caller's kplist;
 refuse an empty selection of k-points

---
 irrep/bandstructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 14a3119..c4f42bb 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,8 +304,9 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k > 0 and k <= NK], dtype=int)
+            if len(kplist) == 0:
+                raise RuntimeError("No k-points to calculate")
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From c7b5e01fec181d849e7ef4f45a2ae2de249cc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 06/41] fix: Kpoint: do not normalise the array of coefficients
 of the caller in place

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..e7d0224 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -188,7 +188,7 @@ class Kpoint:
         self.upper = upper
 
         self.k_refUC = np.dot(refUC.T, self.k)
-        self.WF /= (
+        self.WF = self.WF / (
             np.sqrt(np.abs(np.einsum("ij,ij->i", self.WF.conj(), self.WF)))
         ).reshape(self.num_bands, 1)
 
-- 
2.43.0


From 2e7713b1e8a4be62251540d0fbb17daf286814d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 07/41] fix: identify_irreps without table: the last set of
 states was not labelled and not written

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index e7d0224..05e9b2e 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From ddcd4bdb274342a0bf1889ef183cdd16d9bf7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 08/41] fix: Kpoint.Separate: warning message was a tuple

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 05e9b2e..3fd2e31 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -488,7 +488,7 @@ class Kpoint:
         check = np.max(abs(Sblock))
         if check > 0.1:
             msg = ("WARNING: matrix of symmetry has non-zero elements between "
-                   "states of different energy:  \n", check)
+                   "states of different energy:  {}\n".format(check))
             log_message(msg, v, 1)
             msg = (f"Printing matrix of symmetry at k={self.k}")
             log_message(msg, v, 1)
-- 
2.43.0


From 68bfa335311bbada15a8dead9b6a20fef4534df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 09/41] fix: zakphase: k-points have no attribute Energy

---
 irrep/bandstructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index c4f42bb..e511604 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -752,7 +752,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -763,13 +763,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
-- 
2.43.0


From abeff0ab9abf5ce30b70a2ea4efb5617dd1a3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 10/41] fix: wcc: phases of the eigenvalues of the Wilson loop,
 not of the (eigenvalues, eigenvectors) tuple

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index e511604..9a6c792 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -795,7 +795,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From 2e99e50450dc8d916ff9528a7ba6050fbe6ba4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 11/41] fix: Kpoint.Separate: verbosity level was overwritten
 by eigenvectors, so that the warning of non-unitary eigenvalues crashed

---
 irrep/kpoint.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 3fd2e31..75d2516 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -504,14 +504,14 @@ class Kpoint:
             b2 = self.borders[istate+1]
             inds_states += [istate] * num_states  # index for set of states
             W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
-                eigenvalues.append(w)
+            for eigval, eigvec in zip(W, V.T):
+                eigenvalues.append(eigval)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), eigvec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        vecs = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -529,7 +529,7 @@ class Kpoint:
             # Sort based on real part of eigenvalues
             arg = np.argsort(np.real(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             inds_states = inds_states[arg]
             borders = np.hstack(
@@ -539,10 +539,10 @@ class Kpoint:
             # Probably this if-else statement can be removed
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
+                    v1 = vecs[:, b1:b2]
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
-                v1 = v
+                v1 = vecs
                 subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
 
         else:  # don't group Kramers pairs
@@ -550,19 +550,19 @@ class Kpoint:
             # Sort based on the argument of eigenvalues
             arg = np.argsort(np.angle(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
+                    v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
                         E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
                     )
 
             else:
-                v1 = v
+                v1 = vecs
                 subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
 
         return subspaces
-- 
2.43.0


From 96f1d1103eb7a383a3e75a400a0feb19801e49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 12/41] fix: Kpoint.Separate: groupKramers=False called
 copy_sub with arguments it does not have

---
 irrep/kpoint.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 75d2516..f2c1ad5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -543,7 +543,7 @@ class Kpoint:
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
                 v1 = vecs
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
@@ -552,18 +552,21 @@ class Kpoint:
             w = w[arg]
             vecs = vecs[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
                     v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands]
                     )
 
             else:
                 v1 = vecs
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From 25318931459d0d0297f6a008014278516e2f3238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 13/41] fix: copy_sub: energies and borders of a subspace were
 those of the whole set of bands

---
 irrep/kpoint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index f2c1ad5..52dcd44 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -288,12 +288,14 @@ class Kpoint:
         # Sort energy levels
         sortE = np.argsort(E)
         other.Energy_mean = E[sortE]
+        other.Energy_raw = E[sortE]
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
 
         # Do not group by degeneracy of energy-levels for printing
         other.degeneracies = [1] * other.num_bands
+        other.borders = np.arange(other.num_bands + 1)
         char = []
         char_refUC = []
         for i in inds:
-- 
2.43.0


From 1a1264461fbaeebf168123b9ad6abd1c28256c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 14/41] fix: cli: more than one symmetry in -isymsep raised
 "truth value of an array is ambiguous"

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..7253d6c 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -353,7 +353,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From 9d5cb0e8c86999e3af01cb98acb2cfe8ea2c6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 15/41] fix: cli: subspaces of a previous symmetry survived
 into the separation by the next one

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 7253d6c..43ce51b 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -419,8 +419,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
-- 
2.43.0


From 272b07fc2c8016e5b1cdf4645ea2119c80a6a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 16/41] fix: cli: -ZAK stopped after the first subspace

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 43ce51b..58d4883 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -456,7 +456,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 783d34b40d80bbbe86792d35ffdfa98af74416c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 17/41] fix: cli: -trans_thresh and -alat were not passed on

---
 irrep/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/cli.py b/irrep/cli.py
index 58d4883..28365ff 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -375,8 +375,10 @@ def cli(
         refUC = refuc,
         shiftUC = shiftuc,
         search_cell = searchcell,
+        trans_thresh=trans_thresh,
         degen_thresh=degenthresh,
         save_wf=save_wf,
+        alat=alat,
         v=v,
         from_sym_file=from_sym_file
     )
-- 
2.43.0


From 266aebece978022cf641ce7b2b700b0ced84ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 18/41] fix: cli: -symmetries did not select the symmetries
 printed

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 28365ff..91f2b86 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -383,7 +383,7 @@ def cli(
         from_sym_file=from_sym_file
     )
 
-    bandstr.spacegroup.show()
+    bandstr.spacegroup.show(symmetries=symmetries)
 
     if writesym:
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
-- 
2.43.0


From faf5ad6b0ee8a7e64b8c544f1d28c2b6761286d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 19/41] fix: SpaceGroup.show: vectors of the reference cell are
 refUC.T @ Lattice

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..c53cbc2 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,7 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         #vecs_refUC = np.dot(self.refUC, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
-- 
2.43.0


From f11118f9b889ed74bf00b096e637e29713afbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 20/41] fix: SpaceGroup.show: positions in the reference cell
 ignored the shift of origin

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index c53cbc2..f223eaa 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -765,7 +765,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 649f168d3081bbadea4bffecc3b55b79c352d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 21/41] fix: get_irreps_from_table: k-points of the error
 message were not converted like the k-point itself

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index f223eaa..06e7c3c 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1015,7 +1015,7 @@ class SpaceGroup():
                 "the k-point with name {0} is not found in the spacegroup {1}. found only :\n{2}".format(
                     kpname, table.number, "\n ".join(
                         "{0}({1}/{2})".format(
-                            irr.kpname, irr.k, np.linalg.inv(self.refUC).dot(
+                            irr.kpname, irr.k, np.linalg.inv(self.refUC.T).dot(
                                 irr.k) %
                             1) for irr in table.irreps)))
         return tab
-- 
2.43.0


From 8e4418cb90eb002f8ab50b84ccfcb4a82a3c5ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 22/41] fix: cart_to_crystal: sign of translations is opposite
 in the .sym file, see str_sym

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 06e7c3c..d5787b6 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1413,5 +1413,5 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 1a672b73fb0fec1b2c2941d98628b14b81b92572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 23/41] fix: match of spinor rotations depended on the state of
 the global random generator

---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index d5787b6..ee14f0c 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -934,8 +934,9 @@ class SpaceGroup():
             """
             return residue_matrix(RR(x)) / len(S1)
 
+        rng = np.random.RandomState(0)  # reproducible results
         for i in range(11):
-            x0 = np.random.random(2 * n * n)
+            x0 = rng.random_sample(2 * n * n)
             res = minimize(residue, x0)
             r = res.fun
             if r < 1e-4:
-- 
2.43.0


From 6df9cba7298e24dd3000170c3b52f469fe13bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 24/41] fix: irreptables: header of the file was never compared
 with the requested space group

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..0cf712b 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -340,7 +340,7 @@ class IrrepTable:
         while len(lines) > 0:
             l = lines.pop().strip().split("=")
             # logger.debug(l,l[0].lower())
-            if l[0].lower() == "SG":
+            if l[0].lower() == "sg":
                 assert int(l[1]) == self.number
             elif l[0].lower() == "name":
                 self.name = l[1]
-- 
2.43.0


From 125a0e08120c2d512f05296cbf3cdee614ded3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 25/41] fix: cli: names of k-points were not written, the list
 of symmetries was taken for them

---
 irrep/cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 91f2b86..9261a4f 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -412,7 +412,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
@@ -439,7 +439,12 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                if kpnames is None:
+                    kpnames_sub = None
+                else:  # a subspace may have states only at some of the k-points
+                    names = {KP.ik0: name for KP, name in zip(bandstr.kpoints, kpnames)}
+                    kpnames_sub = [names[KP.ik0] for KP in sub.kpoints]
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(kpnames_sub)})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From fd784f822cb60ad9ab30cb1ed3266f4c21952e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 26/41] fix: cli: -writesym without -prefix raised a TypeError

---
 irrep/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/cli.py b/irrep/cli.py
index 9261a4f..3f19bea 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -386,6 +386,8 @@ def cli(
     bandstr.spacegroup.show(symmetries=symmetries)
 
     if writesym:
+        if prefix is None:
+            raise RuntimeError("-writesym needs -prefix to name the .sym file")
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
 
     if onlysym:
-- 
2.43.0


From acc3f21fb4e208645a65f32e1269505fac4f6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 27/41] fix: parse_poscar: a line that is not a position raised
 a TypeError in the message about it

---
 irrep/readfiles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 1b24717..7c98878 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -448,8 +448,7 @@ class ParserVasp:
                 positions[i] = np.array(l.split()[:3])
                 i += 1
             except Exception as err:
-                log_message(err, msg, 1)
-                pass
+                log_message(f"WARNING: skipped line of POSCAR: {err}", v, 1)
         if sum(nat) != i:
             raise RuntimeError(
                 "not all atomic positions were read : {0} of {1}".format(
-- 
2.43.0


From a3e793595c1034f87603fc861427a27a4f1dab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 28/41] fix: parse_poscar: cartesian positions are scaled by
 the scaling factor of POSCAR

---
 irrep/readfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 7c98878..0280b88 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -421,8 +421,8 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = scale * np.array([next(fpos).split() for i in range(3)], dtype=float)
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -454,7 +454,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = (scale * positions).dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From 05847472cca45193dff4eb76f4617e80ca285deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 29/41] fix: ParserAbinit: k-points that are not in ascending
 order raised an UnboundLocalError

---
 irrep/readfiles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 0280b88..d745785 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -319,6 +319,11 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
+        # The file is read sequentially
+        if ik < self.kpt_count:
+            raise RuntimeError("k-points of an Abinit file must be requested "
+                               "in ascending order and without repetitions")
+
         # We need to skip lines in fWFK until we reach the lines of ik
         for i in range(self.kpt_count, ik+1):
 
-- 
2.43.0


From 9a0d9b89bffa5c98d144de6ed52298a4f52dfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 30/41] fix: ParserAbinit: skipping a k-point read one record
 of coefficients instead of one per band

---
 irrep/readfiles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index d745785..24271db 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -335,13 +335,13 @@ class ParserAbinit():
             # 1st record: npw, nspinor, nband
             record = record_abinit(self.fWFK, "i4")  # [0]
             npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
+            assert npw == self.npwarr[i], ("Different number of plane waves "
                                             "in header and k-point's block. "
                                             "Probably a bug in Abinit...")
             assert nspinor_loc == nspinor, ("Different values of nspinor in "
                                             "header and k-point's block. "
                                             "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
+            assert nband == self.nband[i], ("Different number of bands in "
                                              "header and k-point's block. "
                                              "Probably a bug in Abinit...")
 
@@ -356,7 +356,8 @@ class ParserAbinit():
 
             # 4th record: coefficients of expansions in plane waves
             if skip:
-                record = record_abinit(self.fWFK, "f8")
+                for iband in range(nband):
+                    record_abinit(self.fWFK, "f8")
             else:
                 CG = np.zeros((nband, npw * nspinor), dtype=complex)
                 for iband in range(nband):
-- 
2.43.0


From 93f3db29dfedd089b2e9d94511adb8b73ae21919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 31/41] fix: ParserW90: indices of atomic types depended on
 hash randomisation

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 24271db..ed96178 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -883,7 +883,7 @@ class ParserW90:
                                 break
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
-                    typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
+                    typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
                     if l[1][6:10] == "cart":  # from cartesian to direct coords
-- 
2.43.0


From fad23ac4dd64b7ed5fc6ebc3b8fcb8b11f6f2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 32/41] fix: ParserW90: atoms_cart before unit_cell_cart, or
 with a line of units, could not be read

---
 irrep/readfiles.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index ed96178..f413e95 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -868,6 +868,8 @@ class ParserW90:
                                 self.prefix
                             ))
                     found_atoms = True
+                    cartesian = (l[1][6:10] == "cart")
+                    units_atoms = "ang"
                     positions = []
                     nameat = []
                     while True:
@@ -881,13 +883,19 @@ class ParserW90:
                                 )
                             else:
                                 break
+                        if len(l1) == 1 and l1[0] in ("bohr", "ang"):
+                            units_atoms = l1[0]
+                            continue
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
                     typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+                    if cartesian and units_atoms == "bohr":
+                        positions *= BOHR
+
+        if cartesian:  # from cartesian to direct coords
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From 3a4cd003262526c772f8bc2f76c8e5ee5a98c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 33/41] fix: ParserEspresso: energies of the up channel were
 used for the down channel

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index f413e95..39fa440 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -697,6 +697,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if spin_channel == "up":  # first nbnd_up levels
+            Energy = Energy[:NBin]
+        elif spin_channel == "dw":  # last nbnd_dw levels
+            Energy = Energy[-NBin:]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From 522a1e6cbb0c10368bf1d2ebaa6ea12f75eb8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 34/41] fix: identify_irreps: names of k-points were assigned
 to the wrong k-points if some of them do not exist

---
 irrep/bandstructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 9a6c792..31433d6 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -412,6 +412,10 @@ class BandStructure:
             Verbosity level. Default set to minimalistic printing
         '''
 
+        if kpnames is not None and len(kpnames) != len(self.kpoints):
+            raise RuntimeError("{} names of k-points were given for {} k-points"
+                               .format(len(kpnames), len(self.kpoints)))
+
         for ik, KP in enumerate(self.kpoints):
             
             if kpnames is not None:
-- 
2.43.0


From 8a00353fdcd73a605fb987ca8ee8c2c4ce02d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 35/41] fix: cli: -correct_Ecut0 had no effect

---
 irrep/bandstructure.py | 4 ++++
 irrep/cli.py           | 1 +
 2 files changed, 5 insertions(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 31433d6..3d131b5 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -83,6 +83,8 @@ class BandStructure:
     calculate_traces : bool
         If `True`, traces of symmetries will be calculated. Useful to icreate 
         instances of `BandStructure` faster.
+    correct_Ecut0 : float, default=0.
+        Correction (in eV) added to the plane-wave cutoff read from `WAVECAR`.
     save_wf : bool
         Whether wave functions should be kept as attribute after calculating 
         traces.
@@ -161,6 +163,7 @@ class BandStructure:
         v=0,
         alat=None,
         from_sym_file=None,
+        correct_Ecut0=0.,
     ):
 
         code = code.lower()
@@ -180,6 +183,7 @@ class BandStructure:
             self.Lattice, positions, typat = parser.parse_poscar(v)
             if not onlysym:
                 NK, NBin, self.Ecut0, lattice = parser.parse_header()
+                self.Ecut0 += correct_Ecut0
                 if not np.allclose(self.Lattice, lattice):
                     raise RuntimeError("POSCAR and WAVECAR contain different lattices")
                 EF_in = None  # not written in WAVECAR
diff --git a/irrep/cli.py b/irrep/cli.py
index 3f19bea..466946d 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -379,6 +379,7 @@ def cli(
         degen_thresh=degenthresh,
         save_wf=save_wf,
         alat=alat,
+        correct_Ecut0=correct_ecut0,
         v=v,
         from_sym_file=from_sym_file
     )
-- 
2.43.0


From bb81f8e31b82ed9c9e291638425f91e5bd5322d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:54 +0000
Subject: [PATCH 36/41] fix: order the largest plane waves as VASP does (number
 of grid points is max-min+1)

---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 94f536e..f7bb7f8 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From ba1973ac12ea2cf185fcd10b51f0c66a0baa378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 37/41] fix: print the imaginary part of characters in the
 reference cell

Kpoint.write_characters decided from the characters in the DFT cell alone
whether imaginary parts are printed, so that complex characters in the
reference cell were printed as their real part if those in the DFT cell
are real (e.g. with a shift of the origin).
---
 irrep/kpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 52dcd44..ddf5255 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -729,7 +729,8 @@ class Kpoint:
             str_irreps.append(s)
 
         # Set auxiliary blank strings for formatting
-        writeimaginary = np.abs(self.char.imag).max() > 1e-4
+        writeimaginary = (np.abs(self.char.imag).max() > 1e-4
+                          or np.abs(self.char_refUC.imag).max() > 1e-4)
         if writeimaginary:
             aux1 = ' ' * 4
         else:
-- 
2.43.0


From 702ea415469f520e726448f0f8a5baedbc57a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 38/41] fix: -ZAK does not drop -WCC and -plotbands, -WCC does
 not drop -plotbands

---
 irrep/cli.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 466946d..f10c189 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -466,7 +466,6 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-        exit()
 
     if wcc:
         for k in subbands:
@@ -478,7 +477,6 @@ def cli(
                     k, wcc, np.sum(wcc) % 1
                 )
             )
-        exit()
 
     if plotbands:
         print("\nplotbands = True --> writing bands")
-- 
2.43.0


From 857b94c1dfcb567c1f60d8d7202b8d7d1ec9864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 39/41] fix: separation with Kramers pairs grouped lost
 k-points where the eigenvalues are not in conjugate pairs

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 3d131b5..fe1ee83 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -699,8 +699,8 @@ class BandStructure:
                     other.kpoints = []
                     for K in kpseparated:
                         vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
+                        vk0 = vk[np.argmin(np.abs(v - np.real(vk)))]
+                        if abs(np.real(vk0) - v) < 0.05:
                             other.kpoints.append(K[vk0])
                     subspaces[v] = other # unnecessary indent ?
                 return subspaces
-- 
2.43.0


From bdcbdd8cabe945b7dcff8c9112f8a5df47623791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 40/41] fix: species of a cell with a single atom in Abinit
 files

numpy reads a field '1i4' of a record as a number, not as an array, and
spglib refuses it.
---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 39fa440..bfc8408 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # a number if there is only one atom
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 573cca6e758697ebaeb9d0d04c2f176f7bbb9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 41/41] fix: Kpoint.write_plotfile used an attribute that does
 not exist

---
 irrep/kpoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index ddf5255..04a52c8 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -845,9 +845,9 @@ class Kpoint:
 
     def write_plotfile(self, kpl, efermi):
 
-        writeimaginary = np.abs(self.character.imag).max() > 1e-4
+        writeimaginary = np.abs(self.char.imag).max() > 1e-4
         s = []
-        for e, dim, char in zip(self.Energy_mean, self.degeneracies, self.character):
+        for e, dim, char in zip(self.Energy_mean, self.degeneracies, self.char):
             s_loc = '{2:8.4f}   {0:8.4f}      {1:5d}   '.format(e-efermi, dim, kpl)
             for tr in char:
                 s_loc += "{0:8.4f}".format(tr.real)
-- 
2.43.0

