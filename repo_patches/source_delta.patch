From 948fdf33e70616e1d56eb6969901344280719ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 01/23] fix: transform the spin matrices in a change of basis

The transformed matrices were assigned to the loop variable and lost, so
spin_x, spin_y, spin_z and spin_2 stayed in the old basis (with the old
shape), while spin_2_tb was transformed.
---
 quantum_systems/basis_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..07aba0f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,11 +343,14 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
                 spin = self.transform_one_body_elements(
                     spin, C, C_tilde=C_tilde, np=self.np
                 )
+                setattr(self, name, spin)
 
     def _change_basis_two_body_elements(self, C, C_tilde):
         self.u = self.transform_two_body_elements(
-- 
2.43.0


From 632ea9ced02c90a137d0d710035ca8895117c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 02/23] fix: one-body spin-squared operator in a
 non-orthonormal basis

The product of two operators needs the inverse overlap between the matrices,
not the overlap. With the overlap the one-body part of S^2 was 3/4 s^3 instead
of 3/4 s, e.g. for systems in an atomic-orbital basis.
---
 quantum_systems/basis_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 07aba0f..d4abec5 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -700,8 +700,12 @@ class BasisSet:
         spin_2 = np.zeros_like(spin_x)
         spin_2_tb = np.zeros((l, l, l, l), dtype=spin_2.dtype)
 
+        # The resolution of the identity in a non-orthonormal basis contains the
+        # inverse of the overlap.
+        overlap_inv = np.linalg.pinv(overlap)
+
         for s_i in [spin_x, spin_y, spin_z]:
-            spin_2 += s_i @ overlap @ s_i
+            spin_2 += s_i @ overlap_inv @ s_i
             spin_2_tb += np.einsum("pr, qs -> pqrs", s_i, s_i)
 
         return spin_2, spin_2_tb
-- 
2.43.0


From 2fbe83769a9a05ff7823150b0f3cae17e80e066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 03/23] fix: copying a basis set whose potential stores the
 array module

copy_basis, copy_system and construct_general_orbital_system raised
"TypeError: cannot pickle 'module' object" for e.g. ODQD.GaussianPotential.
---
 quantum_systems/basis_set.py | 3 ++-
 quantum_systems/system.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index d4abec5..b44597d 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -757,7 +757,8 @@ class BasisSet:
         np = self.np
         self.np = None
 
-        new_basis = copy.deepcopy(self)
+        # Potentials might also store the module, which can not be copied.
+        new_basis = copy.deepcopy(self, {id(np): np})
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..ad205f6 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -175,7 +175,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self.np = None
         self._basis_set.np = None
 
-        new_system = copy.deepcopy(self)
+        # Potentials might also store the module, which can not be copied.
+        new_system = copy.deepcopy(self, {id(np): np})
 
         new_system.change_module(np)
         self.change_module(np)
-- 
2.43.0


From 030ddf2fd75dc4c027bcaaaad794c77fc4bdc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 04/23] fix: constructing a general orbital system with a
 time-evolution operator

The deep copy of the operator included the system with its array module and
raised "TypeError: cannot pickle 'module' object".
---
 quantum_systems/spatial_orbital_system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..39615ba 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -97,8 +97,13 @@ class SpatialOrbitalSystem(QuantumSystem):
         import copy
 
         if not self._time_evolution_operator is None:
+            # The operator refers to its system (and the module), which should
+            # be replaced by (and shared with) the new system.
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.deepcopy(
+                    self._time_evolution_operator,
+                    {id(self): gos, id(self.np): self.np},
+                )
             )
 
         return gos
-- 
2.43.0


From 6f82889357226125955c35b71aefd86a1f31c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 05/23] fix: ODSincDVR.set_u_repr stores the new representation

The converted two-body elements were computed and dropped.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..ee5547a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -130,6 +130,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -143,6 +144,8 @@ class ODSincDVR(BasisSet):
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
-- 
2.43.0


From 8b9b3bc5cb11a947d6622a6975acc1a5c9989d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 06/23] fix: general orbital systems from ODSincDVR

The override lacked the spin basis arguments of BasisSet, so wrapping an
ODSincDVR basis in a GeneralOrbitalSystem raised a TypeError.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index ee5547a..64e6ada 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -179,7 +179,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -188,7 +190,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From 4815f3142aac9081fc16bfbebdcb43e4dc4b3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 07/23] fix: derivative of the symmetric double-well potential

The derivative of b x^4 is 4 b x^3.
---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From ea075de92a5ffc8db58b359a7b232fdbc14314f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 08/23] fix: mass dependence of the two-dimensional Coulomb
 elements

The orbitals have the length scale 1 / sqrt(mass * omega), hence the Coulomb
elements scale with sqrt(mass * omega).
---
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..e59c86d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -83,7 +83,7 @@ class TwoDimensionalHarmonicOscillator(BasisSet):
 
     def setup_basis(self):
         self._h = self.omega * get_one_body_elements(self.l)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements(
             self.l, verbose=self.verbose
         )
         self._s = np.eye(self.l)
@@ -290,7 +290,7 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
 
         self._h = get_one_body_elements_B(num_orbitals, df=self.df)
         self._s = np.eye(num_orbitals)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements_B(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements_B(
             num_orbitals, df=self.df
         )
 
-- 
2.43.0


From d992a69e265ca8d0b839f54182c13c65ed9312c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 09/23] fix: particle density from real orbitals and a complex
 density matrix

The density was accumulated in an array of the orbitals' real dtype, which
raised a casting error.
---
 quantum_systems/system_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..9b89b29 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,8 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    dtype = np.result_type(rho_qp, ket_spf, bra_spf)
+    rho = np.zeros(ket_spf.shape[1:], dtype=dtype)
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From d25cb6a320c3974b84fb0ddfb3bce4d813d30066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 10/23] fix: interrupted writes of the Coulomb-element cache

A write that failed halfway (e.g., a full disk) left a truncated file, and
every later call for that size raised when loading it.
---
 .../quantum_dots/two_dim/two_dim_helper.py           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..4d20a41 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -242,8 +242,16 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements. An interrupted write should not leave a broken file for the
+    # next call to load.
+    tmp_filename = f"{filename}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_filename, "wb") as f:
+            np.save(f, coulomb_elements)
+        os.replace(tmp_filename, filename)
+    finally:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From 0defb41ea37eb9348c3da06576587fb375cdfd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:25 +0000
Subject: [PATCH 11/23] fix: laser field with both a constant pulse and a
 constant polarization

The two closures shared the variable tmp, so that the pulse evaluated to the
polarization vector.
---
 quantum_systems/time_evolution_operators/operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..93fbdc6 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -89,8 +89,8 @@ class LaserField(TimeEvolutionOperator):
         np = self._system.np
 
         if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+            laser_pulse = self._laser_pulse
+            self._laser_pulse = lambda t: laser_pulse
 
         if self._polarization is None:
             # Set default polarization along x-axis
@@ -98,8 +98,8 @@ class LaserField(TimeEvolutionOperator):
             self._polarization[0] = 1
 
         if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+            polarization = self._polarization
+            self._polarization = lambda t: polarization
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
             self._polarization(current_time),
-- 
2.43.0


From 0dfc3fc6bcec7df833d0e786be7afc4139e0f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:38 +0000
Subject: [PATCH 12/23] fix: anti-symmetrizing ODSincDVR in the 2d
 representation

The elements were left as they were but reported as anti-symmetrized.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 64e6ada..490bcde 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -193,6 +193,13 @@ class ODSincDVR(BasisSet):
             a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
+    def anti_symmetrize_two_body_elements(self):
+        # The anti-symmetrized elements have no 2d representation.
+        if not self.anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     def change_module(self, np):
         if self.sparse_repr:
 
-- 
2.43.0


From a942f870a148d6e8d74276f8ccaa888092794d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:16 +0000
Subject: [PATCH 13/23] fix: truncated Coulomb-element cache from unreported
 write errors

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 4d20a41..223931b 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -243,11 +244,14 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Caching Coulomb elements to {filename}")
 
     # Store elements. An interrupted write should not leave a broken file for the
-    # next call to load.
+    # next call to load. Note that np.save misses errors from buffered writes to
+    # a file.
+    buf = io.BytesIO()
+    np.save(buf, coulomb_elements)
     tmp_filename = f"{filename}.{os.getpid()}.tmp"
     try:
         with open(tmp_filename, "wb") as f:
-            np.save(f, coulomb_elements)
+            f.write(buf.getbuffer())
         os.replace(tmp_filename, filename)
     finally:
         if os.path.exists(tmp_filename):
-- 
2.43.0


From 5c4c411cb9607323b046a5de9148a5cb14f1b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:17 +0000
Subject: [PATCH 14/23] fix: refuse ill-shaped coefficients before a change of
 basis starts

A change of basis to fewer functions than there are particles, or with
coefficients that do not fit the basis, was refused only after the size
(and possibly the elements) had been replaced.
---
 quantum_systems/basis_set.py | 9 ++++++---
 quantum_systems/system.py    | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index b44597d..978226a 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -413,13 +413,16 @@ class BasisSet:
             ``None`` and we treat ``C_tilde`` as the Hermitian conjugate of
             ``C``.
         """
-        # Update basis set size
-        self.l = C.shape[1]
-
         # Ensure that C_tilde is not None
         if C_tilde is None:
             C_tilde = C.conj().T
 
+        assert C.shape[0] == self.l
+        assert C_tilde.shape == (C.shape[1], self.l)
+
+        # Update basis set size
+        self.l = C.shape[1]
+
         self._change_basis_one_body_elements(C, C_tilde)
         self._change_basis_two_body_elements(C, C_tilde)
 
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index ad205f6..d963f4b 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -64,6 +64,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self._basis_set.change_module(self.np)
 
     def change_basis(self, C, C_tilde=None):
+        assert self.n <= C.shape[1]
+
         self._basis_set.change_basis(C, C_tilde)
         self.set_system_size(self.n, self._basis_set.l)
 
-- 
2.43.0


From d6c4835f54b06cf670fc2e1f2fb229c03b2bc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 15/23] fix: copying a basis set after a change of array module

A GaussianPotential keeps the module it was made with, which after
change_module is no longer the module of the basis set.
---
 .../quantum_dots/one_dim/one_dim_potentials.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index f06e60f..e3ac98d 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -1,4 +1,6 @@
 import abc
+import copy
+
 import numpy as np
 
 
@@ -113,6 +115,14 @@ class GaussianPotential(OneDimPotential):
         self.deviation = deviation
         self.np = np
 
+    def __deepcopy__(self, memo):
+        # The module can not be copied, and need not be that of the basis set.
+        memo[id(self.np)] = self.np
+        new_potential = copy.copy(self)
+        new_potential.__dict__ = copy.deepcopy(self.__dict__, memo)
+
+        return new_potential
+
     def __call__(self, x):
         return -self.weight * self.np.exp(
             -((x - self.center) ** 2) / (2.0 * self.deviation ** 2)
-- 
2.43.0


From 5df7295408b5b03809161a34dc6ad6627338a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:58 +0000
Subject: [PATCH 16/23] fix: Hermitian dipole helper truncated integer input in
 place

---
 quantum_systems/random_basis.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quantum_systems/random_basis.py b/quantum_systems/random_basis.py
index e0468e9..088956b 100644
--- a/quantum_systems/random_basis.py
+++ b/quantum_systems/random_basis.py
@@ -39,10 +39,7 @@ class RandomBasisSet(BasisSet):
 
     @staticmethod
     def make_dipole_moment_hermitian(dipole_moment):
-        for i in range(len(dipole_moment)):
-            dipole_moment[i] = RandomBasisSet.make_hermitian(dipole_moment[i])
-
-        return dipole_moment
+        return 0.5 * (dipole_moment + dipole_moment.conj().transpose(0, 2, 1))
 
     @staticmethod
     def make_two_body_symmetry(u):
-- 
2.43.0


From 0feb3177f9bf690e5924ea05e241eef2a9345a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:58 +0000
Subject: [PATCH 17/23] fix: Fock matrix of real one-body with complex two-body
 elements

---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/spatial_orbital_system.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..4f41734 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -128,7 +128,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros_like(h, dtype=np.result_type(h, u))
 
         f.fill(0)
 
diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 39615ba..3a0a82e 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -165,7 +165,7 @@ class SpatialOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros_like(h, dtype=np.result_type(h, u))
 
         f.fill(0)
 
-- 
2.43.0


From d700569553e9270699f42d30f8d78649788077c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:58 +0000
Subject: [PATCH 18/23] fix: particle density with real ket and complex bra
 coefficients

---
 quantum_systems/system_helper.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 9b89b29..36616a7 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -13,7 +13,6 @@ def spin_delta(p, q):
 
 def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
-    assert bra_spf.dtype == ket_spf.dtype
 
     dtype = np.result_type(rho_qp, ket_spf, bra_spf)
     rho = np.zeros(ket_spf.shape[1:], dtype=dtype)
-- 
2.43.0


From 2488246e7c5729f350f1c439993f22701194194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 19/23] fix: keep a constant polarization as it is, so that
 copies of an evaluated laser field do not share it

---
 quantum_systems/time_evolution_operators/operator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 93fbdc6..47cc543 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -97,12 +97,15 @@ class LaserField(TimeEvolutionOperator):
             self._polarization = np.zeros(self._system.dipole_moment.shape[0])
             self._polarization[0] = 1
 
-        if not callable(self._polarization):
-            polarization = self._polarization
-            self._polarization = lambda t: polarization
+        # Do not hide a constant polarization in a function, as functions are
+        # shared between copies of the operator.
+        polarization = self._polarization
+
+        if callable(polarization):
+            polarization = polarization(current_time)
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
-- 
2.43.0


From 55cd425594288d68aa775d8db5457584f826f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 20/23] fix: refuse spin functions that are not orthonormal
 before a basis set is doubled

---
 quantum_systems/basis_set.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 978226a..24ec48f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -534,6 +534,16 @@ class BasisSet:
             )
             return
 
+        if getattr(self, "u_repr", "4d") != "2d":
+            a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
+            b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
+
+            # Check that spin basis elements are orthonormal, prior to changing
+            # anything
+            assert abs(self.np.dot(a.conj().T, a) - 1) < 1e-12
+            assert abs(self.np.dot(b.conj().T, b) - 1) < 1e-12
+            assert abs(self.np.dot(a.conj().T, b)) < 1e-12
+
         self._includes_spin = True
 
         self.l = 2 * self.l
@@ -549,13 +559,8 @@ class BasisSet:
         # self.spin_2 also becomes huge. Until a better representation of self.spin_2
         # can be found, we've removed the spin functionality.
         if getattr(self, "u_repr", "4d") != "2d":
-            self.a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
-            self.b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
-
-            # Check that spin basis elements are orthonormal
-            assert abs(self.np.dot(self.a.conj().T, self.a) - 1) < 1e-12
-            assert abs(self.np.dot(self.b.conj().T, self.b) - 1) < 1e-12
-            assert abs(self.np.dot(self.a.conj().T, self.b)) < 1e-12
+            self.a = a
+            self.b = b
 
             (
                 self.sigma_x,
-- 
2.43.0


From b2b2edcb3b3ef27edcac9f62725fb5fe768cd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:17 +0000
Subject: [PATCH 21/23] fix: refuse too many particles before a basis set is
 doubled in a general orbital system

---
 quantum_systems/general_orbital_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 4f41734..02f31dd 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -39,6 +39,9 @@ class GeneralOrbitalSystem(QuantumSystem):
     def __init__(
         self, n, basis_set, a=[1, 0], b=[0, 1], anti_symmetrize=True, **kwargs
     ):
+        # Refuse too many particles prior to changing the basis set in-place
+        assert n <= (1 if basis_set.includes_spin else 2) * basis_set.l
+
         if not basis_set.includes_spin:
 
             basis_set = basis_set.change_to_general_orbital_basis(
-- 
2.43.0


From b601635a8b2db2b3ca80ec6e6d1f1da3d0626d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 22/23] fix: refuse bad spin functions before a compact
 sinc-DVR basis is expanded

---
 quantum_systems/basis_set.py                 | 25 +++++++++++++-------
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py |  9 ++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 24ec48f..a8b4f3f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -534,15 +534,8 @@ class BasisSet:
             )
             return
 
-        if getattr(self, "u_repr", "4d") != "2d":
-            a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
-            b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
-
-            # Check that spin basis elements are orthonormal, prior to changing
-            # anything
-            assert abs(self.np.dot(a.conj().T, a) - 1) < 1e-12
-            assert abs(self.np.dot(b.conj().T, b) - 1) < 1e-12
-            assert abs(self.np.dot(a.conj().T, b)) < 1e-12
+        # Check the spin functions prior to changing anything
+        a, b = self.setup_spin_functions(a, b, self.np)
 
         self._includes_spin = True
 
@@ -601,6 +594,20 @@ class BasisSet:
 
         return self
 
+    @staticmethod
+    def setup_spin_functions(a, b, np):
+        """Static method converting the spin functions to complex column
+        vectors, and checking that they are orthonormal.
+        """
+        a = np.array(a).astype(np.complex128).reshape(-1, 1)
+        b = np.array(b).astype(np.complex128).reshape(-1, 1)
+
+        assert abs(np.dot(a.conj().T, a) - 1) < 1e-12
+        assert abs(np.dot(b.conj().T, b) - 1) < 1e-12
+        assert abs(np.dot(a.conj().T, b)) < 1e-12
+
+        return a, b
+
     @staticmethod
     def setup_pauli_matrices(a, b, np):
         r"""Static method computing matrix elements of the Pauli spin-matrices
diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 490bcde..4398775 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -182,7 +182,14 @@ class ODSincDVR(BasisSet):
     def change_to_general_orbital_basis(
         self, a=[1, 0], b=[0, 1], anti_symmetrize=True
     ):
-        if anti_symmetrize and self.u_repr == "2d":
+        if (
+            anti_symmetrize
+            and self.u_repr == "2d"
+            and not self.includes_spin
+        ):
+            # Check the spin functions prior to changing anything
+            self.setup_spin_functions(a, b, self.np)
+
             if self.l > 100:
                 warnings.warn(
                     "Warning, l large. Change to gos with anti_symmetrize=True forces 4d u."
-- 
2.43.0


From 71d8687016e9f81558b34c90256b333eaec50310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 23/23] fix: tell magnetic-field levels apart in units of the
 frequency

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 223931b..7c7334c 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -408,10 +408,12 @@ def construct_dataframe(n_array, m_array, omega_c=0, omega=1):
     df = df.sort_values(by=["E", "m"]).reset_index().drop("index", axis=1)
 
     df["level"] = 0
-    energies = df["E"].round(decimals=8).unique()
+    # Tell levels apart in units of omega, as all energies are small in a weak trap
+    scaled_energies = df["E"] / omega
+    energies = scaled_energies.round(decimals=8).unique()
 
     for i, energy in enumerate(energies):
-        energy_position = np.where(np.abs(df["E"] - energy) < 1e-6)[0]
+        energy_position = np.where(np.abs(scaled_energies - energy) < 1e-6)[0]
         df.loc[energy_position, "level"] = i
 
     # Computing degenracy.
-- 
2.43.0

