From c89724e0de4c4cc07c3a73392e280879953ca385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 01/60] fix: evaluate the SciPy matrix exponential per matrix
 in PropagatorExpm

scipy.linalg.expm returns wrong results for stacks of matrices whose norms
differ (seen with SciPy 1.18), so multi-wavelength 4x4 results of the SciPy
backend were wrong.
---
 src/elli/solver4x4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..75f910d 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -78,7 +78,9 @@ class PropagatorExpm(Propagator):
             "torch": lambda mats: torch.linalg.matrix_exp(
                 torch.from_numpy(mats)
             ).numpy(),
-            "scipy": lambda mats: scipy_expm(mats),
+            # Evaluate each matrix on its own: some SciPy releases return wrong
+            # results for stacks of matrices with differing norms.
+            "scipy": lambda mats: np.stack([scipy_expm(mat) for mat in mats]),
         }
 
         if backend == "automatic" and TORCH_AVAILABLE:
-- 
2.43.0


From 40ecf5d8eed0bdaf50ade9935ab82b8aeaa4f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 02/60] fix: sort undamped modes of anisotropic exit
 half-spaces by their Poynting vector

---
 src/elli/solver4x4.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 75f910d..730bad6 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -220,8 +220,14 @@ class Solver4x4(Solver):
         """
         q, p = np.linalg.eig(delta)
 
-        # Sort according to z propagation direction, by Re(q) first, then Im(q)
-        idx = np.lexsort((-np.real(q), -np.imag(q)))
+        # Sort according to z propagation direction, given by the sign of Im(q) for
+        # damped waves. For undamped waves Im(q) is only numerical noise and the
+        # direction is given by the z component of the Poynting vector.
+        poynting_z = np.real(
+            p[:, 0] * np.conjugate(p[:, 3]) - p[:, 1] * np.conjugate(p[:, 2])
+        )
+        direction = np.where(np.abs(np.imag(q)) > 1e-10, np.imag(q), poynting_z)
+        idx = np.argsort(-direction)
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0


From 830f1fa59dd285523eb218d2b3d34d62ac2d4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 03/60] fix: let Result.get return the requested variable

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..2611e71 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -384,7 +384,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From fb1e902486e509abcfdf81597ef14b063ec37d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 04/60] fix: keep delta congruent modulo 360 degrees in every
 delta range

---
 src/elli/result.py | 32 +++++++++++++++++---------------
 src/elli/utils.py  |  7 ++++++-
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 2611e71..c5414ff 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -29,7 +29,7 @@ import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
 
-from .utils import DeltaRange
+from .utils import DeltaRange, convert_delta_range
 
 
 def _convert_index(index: str) -> int:
@@ -112,9 +112,10 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
+        return convert_delta_range(
+            -np.angle(self.rho, deg=True),
+            self._delta_range.lower,
+            self._delta_range.upper,
         )
 
     @property
@@ -126,9 +127,10 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
+        return convert_delta_range(
+            -np.angle(self.rho_t, deg=True),
+            self._delta_range.lower,
+            self._delta_range.upper,
         )
 
     @property
@@ -197,9 +199,10 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
+        return convert_delta_range(
+            -np.angle(self.rho_matrix, deg=True),
+            self._delta_range.lower,
+            self._delta_range.upper,
         )
 
     @property
@@ -212,11 +215,10 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
+        return convert_delta_range(
+            -np.angle(self.rho_matrix_t, deg=True),
+            self._delta_range.lower,
+            self._delta_range.upper,
         )
 
     @property
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..ce52432 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -50,7 +50,12 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    delta = np.mod(delta_values - delta_range.lower, 360) + delta_range.lower
+
+    if (delta_range.lower, delta_range.upper) == (0, 180):
+        # The sign of delta is not available in this range
+        return 180 - np.abs(180 - delta)
+    return delta
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From e3a4a028605c7350e6d3e5894ebcdb5141f254d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 05/60] fix: reject delta ranges with a non-integer bound

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index ce52432..6aee959 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From 797b9cca0087f1e4f96bd3cd2cd3711b0716b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 06/60] fix: average a ResultList over its results, whatever
 their number

---
 src/elli/result.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index c5414ff..aba0548 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -511,7 +511,18 @@ class ResultList:
         if name == "mean":
             return AveragedResultList(self.results)
 
-        return np.squeeze(np.array([getattr(result, name) for result in self.results]))
+        return np.squeeze(self._stack(name))
+
+    def _stack(self, name: str) -> npt.NDArray:
+        """Returns the variable 'name' of all results, stacked along the first axis.
+
+        Args:
+            name (str): Variable name to return.
+
+        Returns:
+            npt.NDArray: Array of data.
+        """
+        return np.array([getattr(result, name) for result in self.results])
 
 
 class AveragedResultList(ResultList):
@@ -543,4 +554,4 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        return np.mean(self._stack(name), axis=0)
-- 
2.43.0


From 067eb045116f42d17779b9c6fe32cb4928eab12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 07/60] fix: allow copying and pickling of ResultLists

---
 src/elli/result.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index aba0548..c4d9128 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -508,6 +508,9 @@ class ResultList:
             npt.NDArray: Array of data.
         """
 
+        if name.startswith("__") or name == "results":
+            raise AttributeError(f"'ResultList' object has no attribute '{name}'")
+
         if name == "mean":
             return AveragedResultList(self.results)
 
@@ -554,4 +557,9 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
+        if name.startswith("__") or name == "results":
+            raise AttributeError(
+                f"'AveragedResultList' object has no attribute '{name}'"
+            )
+
         return np.mean(self._stack(name), axis=0)
-- 
2.43.0


From a4cbe0fba539032b0f48315ba3d20747ef9be360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 08/60] fix: use separate power corrections for p and s
 polarized transmission

The transmittance of absorbing exit half-spaces at oblique incidence did
not conserve energy for p polarized light.
---
 src/elli/result.py    | 16 +++++++++++-----
 src/elli/solver2x2.py | 14 ++++++++++----
 src/elli/solver4x4.py | 14 ++++++++++++--
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index c4d9128..c8c3a42 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -323,7 +323,7 @@ class Result:
         .. math::
             M_T = \begin{bmatrix} T_{pp} & T_{ps} \\ T_{sp} & T_{ss} \end{bmatrix}
         """
-        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, None, None]
+        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, :, None]
 
     @property
     def Rc_matrix(self) -> npt.NDArray:
@@ -341,7 +341,9 @@ class Result:
         .. math::
             M_{Tc} = \begin{bmatrix} T_{LL} & T_{LR} \\ T_{RL} & T_{RR} \end{bmatrix}
         """
-        return np.abs(self.jones_matrix_tc) ** 2 * self._power_correction[:, None, None]
+        c = 1 / sqrt(2) * np.array([[1, 1], [1j, -1j]])
+        power_amplitudes = self._jones_matrix_t * sqrt(self._power_correction)[:, :, None]
+        return np.abs(np.linalg.inv(c) @ power_amplitudes @ c) ** 2
 
     def __init__(
         self,
@@ -359,15 +361,19 @@ class Result:
             jones_matrix_t (npt.NDArray): Jones matrix for the transmission direction.
             power_correction (npt.NDArray):
                 Correction factors, to get the power transmission values.
+                Either one factor per wavelength or, with shape (n, 2),
+                separate factors for p and s polarized transmitted light.
         """
         self.experiment = experiment
         self._jones_matrix_r = jones_matrix_r
         self._jones_matrix_t = jones_matrix_t
         self._delta_range = DeltaRange(-180, 180)
         if power_correction is None:
-            self._power_correction = np.ones_like(self.experiment.lbda)
-        else:
-            self._power_correction = power_correction
+            power_correction = np.ones_like(self.experiment.lbda)
+
+        if np.ndim(power_correction) == 1:
+            power_correction = np.stack([power_correction, power_correction], axis=-1)
+        self._power_correction = power_correction
 
     def get(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
diff --git a/src/elli/solver2x2.py b/src/elli/solver2x2.py
index b7ed856..fc46ff9 100644
--- a/src/elli/solver2x2.py
+++ b/src/elli/solver2x2.py
@@ -106,10 +106,16 @@ class Solver2x2(Solver):
         jones_matrix_r = np.moveaxis(np.array([[rtotp, zeros], [zeros, rtots]]), 2, 0)
         jones_matrix_t = np.moveaxis(np.array([[ttotp, zeros], [zeros, ttots]]), 2, 0)
 
-        # TODO: Test if p and s correction formulas are needed.
-        power_correction = ((n_list[-1] * np.cos(th_list[-1])).real) / (
-            n_list[0] * np.cos(th_list[0])
-        ).real
+        # The z component of the Poynting vector differs for p and s polarization,
+        # if the half-space is absorbing.
+        cos_f, cos_b = np.cos(th_list[0]), np.cos(th_list[-1])
+        power_correction = np.stack(
+            [
+                (n_list[-1] * cos_b.conj()).real / (n_list[0] * cos_f.conj()).real,
+                (n_list[-1] * cos_b).real / (n_list[0] * cos_f).real,
+            ],
+            axis=-1,
+        )
 
         return Result(self.experiment, jones_matrix_r, jones_matrix_t, power_correction)
 
diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 730bad6..4085977 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -384,12 +384,22 @@ class Solver4x4(Solver):
         # The power transmission coefficient is the ratio of the 'z' components
         # of the Poynting vector:       t = P_t_z / P_i_z
         # For isotropic media, we have: t = kb'/kf' |t_bf|^2
-        # The correction coefficient is kb'/kf'
+        # for s polarization and with p polarization:
+        #                               t = (nb kb*/nb*)'/(nf kf*/nf*)' |t_bf|^2
+        # The correction coefficients are the factors in front of |t_bf|^2.
         # Note : For the moment it is only meaningful for isotropic half spaces.
         if isinstance(self.structure.back_material, IsotropicMaterial):
             k_z_f = self.get_k_z(self.structure.front_material, self.lbda, k_x)
             k_z_b = self.get_k_z(self.structure.back_material, self.lbda, k_x)
-            power_correction = k_z_b.real / k_z_f.real
+            n_b = self.structure.back_material.get_refractive_index(self.lbda)[:, 0, 0]
+            power_correction = np.stack(
+                [
+                    (k_z_b.conj() * n_b / n_b.conj()).real
+                    / (k_z_f.conj() * nx / nx.conj()).real,
+                    k_z_b.real / k_z_f.real,
+                ],
+                axis=-1,
+            )
             return Result(
                 self.experiment, jones_matrix_r, jones_matrix_t, power_correction
             )
-- 
2.43.0


From 81f85fb08b1ff3f15cc6e763f2d7a1a9b575bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 09/60] fix: do not change the operands when adding dispersions

---
 src/elli/dispersions/base_dispersion.py | 40 +++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..654c4a0 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -223,8 +223,7 @@ class Dispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
+            return DispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
@@ -299,8 +298,7 @@ class IndexDispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
+            return IndexDispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
@@ -345,21 +343,20 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+    def _append(self, other: Union[int, float, "Dispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
             self.dispersions += other.dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+        else:
+            self.dispersions.append(other)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -388,23 +385,22 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(
-        self, other: Union[int, float, "IndexDispersion"]
-    ) -> "IndexDispersionSum":
+    def _append(self, other: Union[int, float, "IndexDispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, IndexDispersionSum):
             self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
+        else:
+            self.index_dispersions.append(other)
 
-        self.index_dispersions.append(other)
-        return self
+    def __add__(
+        self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(self, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
-- 
2.43.0


From d7233a193d3df78101a4c89af4b109eef89b276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 10/60] fix: allow adding a number to a Table dispersion

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 0e2f693479c3fc4fd32ac4ffcb572f3380055047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 11/60] fix: count layers, not their slices, before and after
 RepeatedLayers

---
 src/elli/structure.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..db3e38b 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,14 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        layers = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
             before = layers[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+        # A layer may consist of several slices
+        return sum(before + self.repetitions * layers + layers[: self.after], [])
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From 80f98cb2b20aaf82a0420acd84dc3b3995b68040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 12/60] fix: allow a thickness of zero for inhomogeneous layers

---
 src/elli/structure.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index db3e38b..23be293 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -251,6 +251,17 @@ class InhomogeneousLayer(AbstractLayer):
         """
         return np.linspace(0, self.thickness, self.div + 1)
 
+    def get_relative_position(self, z: float) -> float:
+        """Returns the position 'z' relative to the thickness of the layer.
+
+        Args:
+            z (float): Position in the layer (in nm)
+
+        Returns:
+            float: Relative position from 0 (top) to 1 (bottom). 0 for a layer without thickness.
+        """
+        return z / self.thickness if self.thickness > 0 else 0.0
+
     @abstractmethod
     def get_tensor(self, z: float, lbda: npt.ArrayLike) -> npt.NDArray:
         """Returns permittivity tensor matrix for position 'z'."""
@@ -312,7 +323,7 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        m_r = rotation_v_theta(E_Z, self.angle * self.get_relative_position(z))
         return m_r @ epsilon @ m_r.T
 
 
@@ -386,7 +397,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(self.get_relative_position(z))
         )
         return epsilon
 
-- 
2.43.0


From 853de3729ab03749adc33534ce59188d268a5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 13/60] fix: evaluate dispersions in floating point for integer
 wavelengths

---
 src/elli/dispersions/base_dispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 654c4a0..5f70d40 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -113,12 +113,14 @@ class BaseDispersion(ABC):
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=np.float64)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=np.float64)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From df9c02e352bd82cff915757918623b8a3a368df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 14/60] fix: allow single wavelengths for formula dispersions

---
 src/elli/dispersions/formula.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..a555fec 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -109,13 +109,15 @@ class FormulaParser(BaseDispersion):
             )
 
     def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
-        return FormulaTransformer(
+        values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=np.atleast_1d(lbda),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
 
+        return np.squeeze(values) if np.ndim(lbda) == 0 else values
+
 
 class Formula(Dispersion, FormulaParser):
     r"A formula dispersion"
-- 
2.43.0


From 5cd0730fb484aaf5754c781ca52d66519e58aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 15/60] fix: sum formula expressions which do not contain every
 axis

---
 src/elli/formula_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..5d51d41 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -129,7 +129,8 @@ class FormulaTransformer(Transformer):
 
     def sum_expr(self, expr):
         """Sum an expression"""
-        return expr.sum(axis=1)
+        # The expression does not need to contain every axis
+        return np.sum(expr * np.ones(self.no_repeated_params), axis=-1)
 
     def single_param_name(self, name):
         """Return a parameter inside a non-repeated section"""
-- 
2.43.0


From 1939d4c92c44dacb65bf3da7982ac8051ea45219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 16/60] fix: make the heaviside function usable in formulas

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 5d51d41..3d1aabd 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda val: np.heaviside(val, 0),
         }
 
         if name in names:
-- 
2.43.0


From 3e410a645c0e3bd8557e523ad4e00eaee34417a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 17/60] fix: allow formula parameter names that start like a
 function or constant

---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..fcd764c 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?![A-Za-z0-9_])/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?![A-Za-z0-9_])/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From cb6283f58b03977166f2442ad7dd0d519c1b5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 18/60] fix: convert Stokes vectors near vertical polarization
 without rounding problems

---
 src/elli/experiment.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..6edc28f 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -121,12 +121,10 @@ class Experiment:
             U = self.stokes_vector[2] / (self.stokes_vector[0] * p)
             V = self.stokes_vector[3] / (self.stokes_vector[0] * p)
 
-            if Q == -1:
-                a = 0
-                b = 1
-            else:
-                a = np.sqrt((1 + Q) / 2)
-                b = U / (2 * a) + 1j * V / (2 * a)
+            # Rounding can lead to values slightly outside of [-1, 1]
+            Q = np.clip(Q, -1, 1)
+            a = np.sqrt((1 + Q) / 2)
+            b = np.sqrt((1 - Q) / 2) * np.exp(1j * np.arctan2(V, U))
 
             self.jones_vector = np.array([a, b])
 
-- 
2.43.0


From 99c5510170ceca05597db33e7860c1786f003df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 19/60] fix: reject vectors which are neither a Jones nor a
 Stokes vector

---
 src/elli/experiment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index 6edc28f..a487084 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -128,6 +128,11 @@ class Experiment:
 
             self.jones_vector = np.array([a, b])
 
+        else:
+            raise ValueError(
+                "Provide a Jones vector with two or a Stokes vector with four elements."
+            )
+
     def set_theta(self, theta_i: float) -> None:
         """Set incident angle to evaluate.
 
-- 
2.43.0


From 96db37061dc3473233378ee7178f458ca4514b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 20/60] fix: calculate the isotropic Mueller matrix from psi
 and delta in degrees

---
 src/elli/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 6aee959..23f2101 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -153,12 +153,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From f995ed1a3989d4e741593c4bdad0f0c338b259b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 21/60] fix: recognize CompleteEASE tables starting with a
 negative delta

---
 src/elli/importer/woollam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..c2a9687 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -58,7 +58,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}-?\d+\.\d+$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From 61219627433f88b5212c995388d8c15c550e0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 22/60] fix: convert the spectral axis of Woollam files given
 in energy units

---
 src/elli/importer/woollam.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c2a9687..0d2293b 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -87,9 +87,11 @@ def scale_to_nm(unit: str, dataframe: pd.DataFrame) -> pd.DataFrame:
         pd.DataFrame: The dataframe with scaled wavelength axis.
     """
     try:
-        scaling = ureg(unit).to("nm").magnitude
-        dataframe.index = dataframe.index.set_levels(
-            dataframe.index.levels[1].astype(float) * scaling, level=1
+        wavelength = dataframe.index.get_level_values(1).astype(float).to_numpy()
+        wavelength = (wavelength * ureg(unit)).to("nm").magnitude
+        dataframe.index = pd.MultiIndex.from_arrays(
+            [dataframe.index.get_level_values(0), wavelength],
+            names=dataframe.index.names,
         )
 
         return dataframe
-- 
2.43.0


From 3e1612f3152446f9057000da23d30e04aca23442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 23/60] fix: read the header of SpectraRay files with the
 detected encoding

---
 src/elli/importer/spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..b7ba209 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -43,7 +43,7 @@ def read_spectraray_psi_delta(
     # index data correctly
     psi_delta_df.index.name = "Wavelength"
 
-    with open(fname) as f:
+    with open(fname, encoding=encoding) as f:
         header = f.readlines()[0]
 
     aois = list(map(float, re.split(sep, header)[3::2]))
-- 
2.43.0


From 2aed55ae756ee68498b5e9c0aaf783f6cbb68bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 24/60] fix: load SpectraRay dispersion tables given over the
 wavelength

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From b3f8a65297876b184f04b43238ae64883b8c7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 25/60] fix: read tabulated dispersions from NeXus files into
 memory

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From fb51d517cbaaf89d7a68b608907a0f47da94c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 26/60] fix: restore complete and independent copies from the
 ParamsHist history

---
 src/elli/fitting/params_hist.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..f33e1c4 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -75,6 +75,15 @@ class ParamsHist(Parameters):
         self._history = self._history[-history_len:]
         self._max_length = history_len
 
+    def _restore(self, parameters: Parameters) -> None:
+        """Replaces the current parameters by a copy of the given ones.
+
+        Args:
+            parameters (Parameters): The parameters to restore.
+        """
+        self.clear()
+        self.update(copy.deepcopy(parameters))
+
     def revert(self, hist_pos: int) -> None:
         """Reverts to an older history version and keeps the entire history.
 
@@ -82,13 +91,13 @@ class ParamsHist(Parameters):
             hist_pos (int): The history position to revert to.
         """
         if len(self._history) > (hist_pos % len(self._history)):
-            self.update(self._history[hist_pos])
+            self._restore(self._history[hist_pos])
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
-- 
2.43.0


From 6ced298bb88b9daaeae4a8283a82f0a68686b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 27/60] fix: copy the parameters given to
 ParamsHist.update_params

---
 src/elli/fitting/params_hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index f33e1c4..477aa57 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -121,7 +121,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(copy.deepcopy(parameters))
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From 80a3bdd56f7aafd2f7706f1bab91d835a4de1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 28/60] fix: ignore reverting to a position outside of the
 ParamsHist history

---
 src/elli/fitting/params_hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 477aa57..8c70029 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -90,7 +90,7 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
+        if -len(self._history) <= hist_pos < len(self._history):
             self._restore(self._history[hist_pos])
 
     def pop(self):
-- 
2.43.0


From 20a4d966961f0ed9582a57044a110fce64f429e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 29/60] fix: pass append_exp_data by name when saving fit
 results to csv

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..dee5bf5 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -92,7 +92,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From ab2450c593602f05f90c66f5cfa4569d351d756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 30/60] fix: track a fit once in the history and allow fits
 without history

---
 src/elli/fitting/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index dee5bf5..be5d7ba 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -130,8 +130,9 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params.update(self.fitted_params)
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From e3bab4b96c304e2c0ae38586d59db1aa3660d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 31/60] fix: use default display options for Mueller matrix
 fits

---
 src/elli/fitting/decorator_mmatrix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..a5a282c 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -346,11 +346,9 @@ class FitMuellerMatrix(FitDecorator):
         self.param_widgets = {}
         self.show_residual = False
 
-        mm_kwargs = ("display_single", "sharex", "full_scale")
-        for kwarg in mm_kwargs:
-            if kwarg in kwargs:
-                setattr(self, kwarg, kwargs[kwarg])
-                del kwargs[kwarg]
+        mm_kwargs = {"display_single": True, "sharex": False, "full_scale": False}
+        for kwarg, default in mm_kwargs.items():
+            setattr(self, kwarg, kwargs.pop(kwarg, default))
         self.fit_kwargs = kwargs
 
         model_df = mmatrix_to_dataframe(
-- 
2.43.0


From aa430e3eb3ef1ae32f2011af0cbc7651c4bfadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 32/60] fix: allow negative values in the parameter widgets of
 unbounded parameters

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From 2da98a45c98352d000b55fb413d4469ed6c05859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 33/60] fix: evaluate the index profile along the given
 direction

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0


From c900d1cf752f230c773a5f6c59779087d725bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 34/60] fix: accept any white space between
 refractiveindex.info coefficients

---
 src/elli/database/refractive_index_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..4fabb0a 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -333,7 +333,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 1":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -346,7 +346,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 2":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -359,7 +359,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 3":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
@@ -372,7 +372,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 4":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, 6, 4)]
                 e1 = coeffs[slice(2, 7, 4)]
@@ -394,7 +394,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 5":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
-- 
2.43.0


From 698464b66a97dc4144733ca4d84ecb6a239bc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 35/60] fix: allow tabulated dielectric functions to be used as
 index dispersion

---
 src/elli/dispersions/base_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 5f70d40..cb8cede 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -253,7 +253,7 @@ class Dispersion(BaseDispersion):
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        idx_dispersion = AnonymousIndexDispersion(**self.single_params)
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
 
-- 
2.43.0


From b95d2f678980619a7011b823a83bb7bca2da5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 36/60] fix: return circular coefficients for names with
 circular indices

---
 src/elli/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index c8c3a42..1adb629 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -428,6 +428,8 @@ class Result:
 
         if len(names) > 1:
             (i, j) = map(_convert_index, names[1])
+            if names[0] in ["r", "t", "R", "T"] and set(names[1]) <= {"L", "R"}:
+                names[0] += "c"
 
         if names[0] in ["psi", "delta", "rho", "R", "T"]:
             if len(names) == 1:
-- 
2.43.0


From 76ad5328a9e4bbe1c486711b429238f2b498cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 37/60] fix: use the step width for the first point of the
 Kramers-Kronig relation

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 10d5b87de1a76da1d2314a514bc16236fda0a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 38/60] fix: Kramers-Kronig relation on a descending axis

---
 src/elli/kkr/kkr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 85f9ba6..29d2858 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,8 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=2 * x[0] - x[1])
+    # The axis may be ascending or descending
+    interval = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 2939ee66c1ffe76a745edf90708cb80e00d36770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 39/60] fix: document the actual defaults of CauchyUrbach

---
 src/elli/dispersions/cauchy_urbach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/cauchy_urbach.py b/src/elli/dispersions/cauchy_urbach.py
index 2193342..102f12d 100644
--- a/src/elli/dispersions/cauchy_urbach.py
+++ b/src/elli/dispersions/cauchy_urbach.py
@@ -16,8 +16,8 @@ class CauchyUrbach(IndexDispersion):
         :B: Defaults to 0. Unit in 1/eV\ :sup:`2`.
         :C: Defaults to 0. Unit in 1/eV\ :sup:`4`.
         :D: Defaults to 0.
-        :Eg: Defaults to 0. Unit in eV.
-        :Eu: Defaults to 1. Unit in eV.
+        :Eg: Defaults to 2. Unit in eV.
+        :Eu: Defaults to 0.5. Unit in eV.
 
     Repeated parameters:
         --
-- 
2.43.0


From fc8b7ae8c9fb19d216141ad5eb452715cfb3b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 40/60] fix: keep CodyLorentz finite for small Urbach energies

The exponential of the Urbach tail overflowed on the padded grid above the
gap and became nan when multiplied by the step function.
---
 src/elli/dispersions/cody_lorentz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/cody_lorentz.py b/src/elli/dispersions/cody_lorentz.py
index 20302ba..ac3f24d 100644
--- a/src/elli/dispersions/cody_lorentz.py
+++ b/src/elli/dispersions/cody_lorentz.py
@@ -61,7 +61,7 @@ class CodyLorentz(Dispersion):
 
         # fmt: off
         return (
-            E1 / E * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)
+            E1 / E * np.exp(np.minimum(E - Et, 0) / Eu) * np.heaviside(Et - E, 1)
             + G(E) * L(E) * np.heaviside(E - Et, 0)
         )
         # fmt: on
-- 
2.43.0


From c6f2a63f5527af231bf55afa3a2d172fa4a105b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 41/60] fix: give the imaginary part its sign in re2im and
 re2im_reciprocal

The transforms to the imaginary part returned the negative of it, so they
were not the inverse of im2re.
---
 src/elli/kkr/kkr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 29d2858..f23acf0 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -77,7 +77,7 @@ def _integrate_re(re: np.ndarray, x: np.ndarray, x_i: np.ndarray) -> np.ndarray:
     Returns:
         numpy.ndarray: The real sum. (shape (m,))
     """
-    return np.sum(x_i * re / (x * x - x_i * x_i), axis=1)
+    return np.sum(x_i * re / (x_i * x_i - x * x), axis=1)
 
 
 def _integrate_re_reciprocal(
@@ -95,7 +95,7 @@ def _integrate_re_reciprocal(
         numpy.ndarray: The real sum. (shape (m,))
     """
 
-    return np.sum(re / (x_i - x * x / x_i), axis=1)
+    return np.sum(re / (x * x / x_i - x_i), axis=1)
 
 
 def _calc_kkr(
@@ -154,7 +154,7 @@ def re2im(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x^2 - x_i^2} dx
+        \frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x_i^2 - x^2} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
@@ -199,7 +199,7 @@ def re2im_reciprocal(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{x_i - \frac{x^2}{x_i}} dx
+        \frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{\frac{x^2}{x_i} - x_i} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
-- 
2.43.0


From 077b4ebbd007b1def50fec69e55e72140572918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 42/60] fix: use oscillators added to a formula dispersion

Parameter sets given by add() were listed but not part of the sum.
---
 src/elli/dispersions/formula.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index a555fec..ccee92f 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,13 +62,6 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
@@ -77,6 +70,15 @@ class FormulaParser(BaseDispersion):
         if unit is not None:
             self._set_unit_conversion(unit)
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The values of each repeated parameter."""
+        if not self.rep_params:
+            return {}
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
-- 
2.43.0


From 35398bdf3df90299d0c14f36578b83165dcb23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 43/60] fix: recognize any number in the first row of Woollam
 tables

A first row containing a number without a decimal point or with an exponent
was taken for the unit line, so it was lost and the wavelengths not scaled.
---
 src/elli/importer/woollam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index 0d2293b..1698ab0 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -18,6 +18,9 @@ logger = logging.getLogger(__name__)
 
 is_float_regex = re.compile(r"[+-]?(\d+([.]\d*)?([eE][+-]?\d+)?|[.]\d+([eE][+-]?\d+)?)")
 
+# A number as it may appear in a data table
+_NUMBER = r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"
+
 
 def is_float(line: Union[float, int, str]) -> bool:
     """Checks whether the given line is a float
@@ -45,7 +48,7 @@ def _is_wvase_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in wvase tabular layout.
     """
-    return bool(re.search(r"^(-?\d*\.\d*\s+){5}\d*\.\d*$", line))
+    return bool(re.search(rf"^({_NUMBER}\s+){{5}}{_NUMBER}\s*$", line))
 
 
 def _is_complete_ease_tabular(line: str) -> bool:
@@ -58,7 +61,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}-?\d+\.\d+$", line))
+    return bool(re.search(rf"^[a-zA-Z]+\s+({_NUMBER}\s+){{5}}{_NUMBER}\s*$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From 6adc1f2d095f9f73f0d5acd5538493f207295b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 44/60] fix: refuse Accurion files without the required columns

Missing columns were filled with nan, which became zeros.
---
 src/elli/importer/accurion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/accurion.py b/src/elli/importer/accurion.py
index 94bbce3..ef3c00e 100644
--- a/src/elli/importer/accurion.py
+++ b/src/elli/importer/accurion.py
@@ -21,7 +21,7 @@ def read_accurion_psi_delta(fname: str) -> pd.DataFrame:
     psi_delta_df = pd.read_csv(
         fname, delimiter="\t", encoding=encoding, skiprows=0, header=0
     )[1:].astype(float)
-    psi_delta_df = psi_delta_df.reindex(columns=list(["AOI", "Lambda", "Delta", "Psi"]))
+    psi_delta_df = psi_delta_df[["AOI", "Lambda", "Delta", "Psi"]]
     psi_delta_df = psi_delta_df.rename(
         columns={
             "AOI": "Angle of Incidence",
-- 
2.43.0


From 2d3158a1adb306b47a78f0b6bd9150593286f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 45/60] fix: look for the NeXus data type in the given sample
 group

---
 src/elli/importer/nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 717de05..c4e1abc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,10 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+    if f"{group_names.full_sample_path}/data_type" in h5file:
+        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+            "utf-8"
+        )
     elif f"{group_names.entry}/data_collection/data_type" in h5file:
         data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
             "utf-8"
-- 
2.43.0


From 8738fe3cf3b819a82bd309adb97da770180d40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 46/60] fix: respect the wavelength unit of NeXus measurements

---
 src/elli/importer/nexus.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index c4e1abc..0a905ec 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -22,6 +22,7 @@ from elli.dispersions.table_epsilon import TableEpsilon
 from elli.dispersions.table_index import Table
 from elli.materials import BiaxialMaterial, IsotropicMaterial, UniaxialMaterial
 
+from ..units import ureg
 from ..utils import calc_rho, conversion_wavelength_energy
 
 
@@ -68,7 +69,15 @@ def read_nexus_psi_delta(
         indexing: Callable[[int, int], IndexExpression],
     ):
         aois = np.array(h5file[aois_path])
-        wavelength = np.array(h5file[wavelength_path]) / 10
+        # Without a proper unit the wavelengths are in angstrom
+        unit = h5file[wavelength_path].attrs.get("units", "angstrom")
+        if isinstance(unit, bytes):
+            unit = unit.decode("utf-8")
+        if not unit or unit not in ureg:
+            unit = "angstrom"
+        wavelength = (np.array(h5file[wavelength_path]) * ureg(unit)).to(
+            "angstrom"
+        ).magnitude / 10
         psi_delta_df = pd.DataFrame(
             {},
             columns=["Ψ", "Δ"],
-- 
2.43.0


From 1dfe9cfaeaacaffcc86679458c0064eeeb38e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 47/60] fix: accept numpy integers and single precision as
 formula parameters

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 3d1aabd..3628524 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -51,7 +51,7 @@ class FormulaTransformer(Transformer):
 
     def _check_and_set_single(self, single_params):
         for name, param in single_params.items():
-            if not isinstance(param, (float, int)):
+            if not isinstance(param, (float, int, np.integer, np.floating)):
                 raise TypeError(
                     f"Expected {name} to be of type float but found type {type(param)}."
                 )
-- 
2.43.0


From 7a7cba908af10dd62280d7b2d44d35452ce5bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 48/60] fix: find database entries which lack some of the
 searched fields

---
 src/elli/database/refractive_index_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 4fabb0a..69822ef 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,10 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = index | (self.catalog[col] == s).fillna(False)
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = index | (self.catalog[col] == q).fillna(False)
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From 644722ce2aa92541057a04fe5dbbb5f66c666701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 49/60] fix: report the first range of database pages with two
 ranges

---
 src/elli/database/refractive_index_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 69822ef..eb49ef8 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -101,7 +101,7 @@ class RII:
             r"(?P<authors>.*) "
             r"(?P<year>\d{4})[^:]*?: "
             r"((?P<comment1>.*); )?"
-            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
+            r"(?P<type1>.+?) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
             r"(, (?P<type2>.+) (?P<lower_range2>\d+(\.\d*)?(e\W?\d+)?).(?P<upper_range2>\d+(\.\d*)?(e\W?\d+)?) µm)?"
             r"(; (?P<comment2>.*))?"
         )
-- 
2.43.0


From b0ad89226fbb34ee626b08481e66807e22c89267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 50/60] fix: keep the fitted parameters apart from the current
 ones

---
 src/elli/fitting/decorator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index be5d7ba..3ef357b 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -1,6 +1,7 @@
 """Abstract base class for Decorator functions for convenient fitting"""
 
 # Encoding: utf-8
+import copy
 from abc import ABC, abstractmethod
 
 import pandas as pd
@@ -132,7 +133,7 @@ class FitDecorator(ABC):
         if isinstance(self.params, ParamsHist):
             self.params.update_params(self.fitted_params)
         else:
-            self.params.update(self.fitted_params)
+            self.params.update(copy.deepcopy(self.fitted_params))
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From cd07913c5ffb5d04627e2e888ba3a4fa0ea142ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 51/60] fix: use the handedness of measured data for Mueller
 matrices and Stokes vectors

The simulated elements M34 and M43 had the opposite sign of those in the
SpectraRay measurement of the examples and of the Mueller matrix converted
from psi and delta, so that a Mueller matrix fit of them could not succeed.
---
 src/elli/experiment.py | 6 ++++--
 src/elli/result.py     | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index a487084..7e4ddc0 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -77,6 +77,8 @@ class Experiment:
         [1,-1,0,0]: vertical polarized
         [1,0,1,0]: diagonal polarized
         [1,0,-1,0]: anti-diagonal polarized
+        [1,0,0,1]: right circular polarized
+        [1,0,0,-1]: left circular polarized
 
         Args:
             vector (npt.ArrayLike): Jones or Stokes vector of incident light.
@@ -99,7 +101,7 @@ class Experiment:
                     * np.real(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
-                    -2
+                    2
                     * np.imag(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
@@ -124,7 +126,7 @@ class Experiment:
             # Rounding can lead to values slightly outside of [-1, 1]
             Q = np.clip(Q, -1, 1)
             a = np.sqrt((1 + Q) / 2)
-            b = np.sqrt((1 - Q) / 2) * np.exp(1j * np.arctan2(V, U))
+            b = np.sqrt((1 - Q) / 2) * np.exp(-1j * np.arctan2(V, U))
 
             self.jones_vector = np.array([a, b])
 
diff --git a/src/elli/result.py b/src/elli/result.py
index 1adb629..f792ef9 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -224,7 +224,7 @@ class Result:
     @property
     def mueller_matrix(self) -> npt.NDArray:
         """Returns the Mueller matrix for reflection, calculated from the rho matrix."""
-        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1j, -1j, 0]])
+        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, -1j, 1j, 0]])
 
         # Kronecker product of S and S*
         s_kron_s_star = np.einsum(
-- 
2.43.0


From 879d8dd5182c114936c6d00d033d5e1f42f6e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 52/60] fix: evaluate integer formula parameters in floating
 point

---
 src/elli/formula_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 3628524..e3cda3b 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -138,7 +138,7 @@ class FormulaTransformer(Transformer):
             return self.x_axis_values
 
         if name in self.single_params:
-            return self.single_params[name]
+            return 1.0 * self.single_params[name]
 
         raise ValueError(f"No such parameter {name}")
 
@@ -150,10 +150,10 @@ class FormulaTransformer(Transformer):
             )
 
         if name in self.single_params:
-            return self.single_params[name]
+            return 1.0 * self.single_params[name]
 
         if name in self.repeated_params:
-            return self.repeated_params[name]
+            return 1.0 * self.repeated_params[name]
 
         raise ValueError(f"No such parameter {name}")
 
-- 
2.43.0


From 5e3c8201a3a6b05ebb63fbdb345d10f1e910082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 53/60] fix: keep the 2x2 solver finite for thick absorbing
 layers and long stacks

---
 src/elli/solver2x2.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/elli/solver2x2.py b/src/elli/solver2x2.py
index fc46ff9..1d4b2ac 100644
--- a/src/elli/solver2x2.py
+++ b/src/elli/solver2x2.py
@@ -81,25 +81,32 @@ class Solver2x2(Solver):
         rs, rp, ts, tp = Solver2x2.fresnel(n_list[0], n_list[1], th_list[0], th_list[1])
         Ms = np.array([[ones, rs], [rs, ones]], dtype=complex) / ts
         Mp = np.array([[ones, rp], [rp, ones]], dtype=complex) / tp
+        scale_s, scale_p = 1, 1
 
         for i in range(1, num_layers - 1):
             rs, rp, ts, tp = Solver2x2.fresnel(
                 n_list[i], n_list[i + 1], th_list[i], th_list[i + 1]
             )
-            em = np.exp(-1j * delta[i - 1])
-            ep = np.exp(1j * delta[i - 1])
+            # The growing factor exp(-1j * delta) is taken out of the matrices and
+            # they are normalized, because they overflow for thick stacks.
+            ep = np.exp(2j * delta[i - 1])
 
             Ms = np.einsum(
-                esum, Ms, np.array([[em, rs * em], [rs * ep, ep]], dtype=complex) / ts
+                esum, Ms, np.array([[ones, rs], [rs * ep, ep]], dtype=complex) / ts
             )
             Mp = np.einsum(
-                esum, Mp, np.array([[em, rp * em], [rp * ep, ep]], dtype=complex) / tp
+                esum, Mp, np.array([[ones, rp], [rp * ep, ep]], dtype=complex) / tp
             )
 
+            scale_s = scale_s * np.exp(1j * delta[i - 1]) / Ms[0, 0]
+            scale_p = scale_p * np.exp(1j * delta[i - 1]) / Mp[0, 0]
+            Ms = Ms / Ms[0, 0]
+            Mp = Mp / Mp[0, 0]
+
         rtots = Ms[1, 0] / Ms[0, 0]
-        ttots = 1 / Ms[0, 0]
+        ttots = scale_s / Ms[0, 0]
         rtotp = Mp[1, 0] / Mp[0, 0]
-        ttotp = 1 / Mp[0, 0]
+        ttotp = scale_p / Mp[0, 0]
 
         zeros = np.repeat(0, n_list.shape[1]) if n_list.ndim > 1 else 1
 
-- 
2.43.0


From ffe6413d369b0ce1dc260737d28bae2aaed4b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 54/60] fix: evaluate Tauc-Lorentz at the band gap energy

---
 src/elli/dispersions/tauc_lorentz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index e93182f..9e217fb 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -4,6 +4,7 @@
 import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
+from scipy.special import xlogy
 
 from ..utils import conversion_wavelength_energy
 from .base_dispersion import Dispersion
@@ -40,14 +41,16 @@ class TaucLorentz(Dispersion):
         aA = (E**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * Ci**2
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
 
+        # The logarithms of E - Eg are collected to stay finite at E = Eg
         # fmt: off
         return (
             Ai*Ci*aL/2.0/np.pi/zeta4/alpha/Ei*np.log((Ei**2 + Eg**2 + alpha*Eg)/(Ei**2 + Eg**2 - alpha*Eg)) - \
             Ai*aA/np.pi/zeta4/Ei*(np.pi - np.arctan((2.0*Eg + alpha)/Ci) + np.arctan((alpha - 2.0*Eg)/Ci)) + \
             2.0*Ai*Ei*Eg/np.pi/zeta4/alpha*(E**2 - gamma2)*(np.pi + 2.0*np.arctan(2.0/alpha/Ci*(gamma2 - Eg**2))) - \
-            Ai*Ei*Ci*(E**2 + Eg**2)/np.pi/zeta4/E*np.log(abs(E - Eg)/(E + Eg)) + \
+            Ai*Ei*Ci/np.pi/zeta4/E*xlogy((E - Eg)**2, abs(E - Eg)) + \
+            Ai*Ei*Ci*(E**2 + Eg**2)/np.pi/zeta4/E*np.log(E + Eg) + \
             2.0*Ai*Ei*Ci*Eg/np.pi/zeta4 * \
-            np.log(abs(E - Eg) * (E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
+            np.log((E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
         )
         # fmt: on
 
-- 
2.43.0


From 6a0d348169db30b8f0b97f0a9746225d63436651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:21 +0000
Subject: [PATCH 55/60] fix: BruggemanEMA takes the physical root for lossless
 constituents of opposite sign

---
 src/elli/materials.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..b6213c5 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -458,7 +458,14 @@ class BruggemanEMA(MixtureMaterial):
 
         p = sqrt(e_h[mask_different]) / sqrt(e_g[mask_different])
         b = 0.25 * ((3 * f - 1) * (1 / p - p) + p)
-        z = b + sqrt(power(b, 2) + 0.5)
+        root = sqrt(power(b, 2) + 0.5)
+
+        # Without absorption and with opposite signs of the permittivities p is imaginary.
+        # If both solutions are imaginary too, the physical one is the limit
+        # of vanishing absorption, which shifts p to the positive real axis.
+        shift = (3 * f - 1) * (1 / np.abs(p) - np.abs(p)) + np.abs(p)
+        wrong = (b.real == 0) & (root.imag * b.imag * shift < 0)
+        z = b + np.where(wrong, -root, root)
 
         e_mix = np.full_like(e_h, np.nan)
         e_mix[mask_equal] = e_h[mask_equal]
-- 
2.43.0


From ddb6a6badde79f24c784406b9ed9d285aa250a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 56/60] fix: Solver4x4 treats isotropic mixtures and
 uniaxial/biaxial exit media as isotropic half-spaces

---
 src/elli/solver4x4.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4085977..4eed8fe 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -347,13 +347,19 @@ class Solver4x4(Solver):
 
         layers = reversed(self.permittivity_profile[1:-1])
 
-        if isinstance(self.structure.back_material, IsotropicMaterial):
-            m_t = self.transition_matrix_iso_halfspace(
-                k_x, self.permittivity_profile[-1][1]
-            )
-        else:
-            m_t = self.transition_matrix_halfspace(
-                self.build_delta_matrix(k_x, self.permittivity_profile[-1][1])
+        # Mixtures and anisotropic materials may be isotropic at some wavelengths
+        eps_b = self.permittivity_profile[-1][1]
+        deviation = np.abs(eps_b - eps_b[:, :1, :1] * np.identity(3))
+        isotropic = isinstance(self.structure.back_material, IsotropicMaterial) | np.all(
+            deviation <= 1e-12 * np.abs(eps_b[:, :1, :1]), axis=(1, 2)
+        )
+
+        m_t = self.transition_matrix_iso_halfspace(k_x, eps_b)
+        if not np.all(isotropic):
+            m_t = np.where(
+                isotropic[:, np.newaxis, np.newaxis],
+                m_t,
+                self.transition_matrix_halfspace(self.build_delta_matrix(k_x, eps_b)),
             )
 
         for thickness, epsilon in layers:
@@ -388,7 +394,7 @@ class Solver4x4(Solver):
         #                               t = (nb kb*/nb*)'/(nf kf*/nf*)' |t_bf|^2
         # The correction coefficients are the factors in front of |t_bf|^2.
         # Note : For the moment it is only meaningful for isotropic half spaces.
-        if isinstance(self.structure.back_material, IsotropicMaterial):
+        if np.any(isotropic):
             k_z_f = self.get_k_z(self.structure.front_material, self.lbda, k_x)
             k_z_b = self.get_k_z(self.structure.back_material, self.lbda, k_x)
             n_b = self.structure.back_material.get_refractive_index(self.lbda)[:, 0, 0]
@@ -400,6 +406,7 @@ class Solver4x4(Solver):
                 ],
                 axis=-1,
             )
+            power_correction[~isotropic] = 1
             return Result(
                 self.experiment, jones_matrix_r, jones_matrix_t, power_correction
             )
-- 
2.43.0


From 7340fb1145f1214e860eb3af2a6311a576f0c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 57/60] fix: keep the rows of Accurion files as they are (rows
 of several regions of interest were summed, missing values became 0)

---
 src/elli/importer/accurion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/accurion.py b/src/elli/importer/accurion.py
index ef3c00e..a3525b6 100644
--- a/src/elli/importer/accurion.py
+++ b/src/elli/importer/accurion.py
@@ -30,7 +30,9 @@ def read_accurion_psi_delta(fname: str) -> pd.DataFrame:
             "Psi": "Ψ",
         }
     )
-    psi_delta_df = psi_delta_df.groupby(["Angle of Incidence", "Wavelength"]).sum()
+    psi_delta_df = psi_delta_df.set_index(
+        ["Angle of Incidence", "Wavelength"]
+    ).sort_index(kind="stable")
 
     # wrap delta range
     psi_delta_df.loc[:, "Δ"] = convert_delta_range(psi_delta_df.loc[:, "Δ"], -180, 180)
-- 
2.43.0


From d52a622ee8e3c0e86218321610de95471556e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 58/60] fix: let evanescent waves decay in exit media with
 rounding errors in the permittivity (4x4 solver)

---
 src/elli/solver4x4.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4eed8fe..2e63415 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -284,6 +284,11 @@ class Solver4x4(Solver):
         sin_phi = k_x / n_x
         cos_phi = sqrt(1 - sin_phi**2)
 
+        # Evanescent waves decay, also if rounding adds some gain to the permittivity
+        k_z = n_x * cos_phi
+        growing = (k_z.imag < 0) & (np.abs(k_z.real) < 1e-10)
+        cos_phi = np.where(growing, -cos_phi, cos_phi)
+
         length = np.shape(k_x)[0]
         zeros = np.tile(0, length)
         ones = np.tile(1, length)
-- 
2.43.0


From 272b00d774c07284558487d6d85667bdaed3c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:24 +0000
Subject: [PATCH 59/60] fix: draw the whole refractive index profile of slices
 with n' < 1

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 4fd8caf..09cce52 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -76,7 +76,7 @@ def _draw_structure_graph(structure, z, n):
     ax.set_xlabel("z (nm)")
     ax.set_ylabel("n'")
     ax.set_xlim(z.min(), z.max())
-    ax.set_ylim(bottom=1.0)
+    ax.set_ylim(bottom=min(1.0, n.real.min()))
     return ax
 
 
-- 
2.43.0


From aa977ac388afe6c06e182c6065081ac845f75a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:31 +0000
Subject: [PATCH 60/60] fix: redo without anything undone changed the history
 of Mueller matrix fits

---
 src/elli/fitting/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 3ef357b..8dbcd77 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -45,7 +45,7 @@ class FitDecorator(ABC):
     def __init__(self) -> None:
         self.params = ParamsHist()
         self.fitted_params = ParamsHist()
-        self.last_params = ParamsHist()
+        self.last_params = None
         self.initial_params = ParamsHist()
         self.param_widgets = {}
         self.fit_kwargs = {}
-- 
2.43.0

