From bd0d68798964cbcb6c4ee936aa9f9bb09fccf910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 01/61] fix: multimode interferometer node matrix (bar element
 and per-node error/loss)

---
 simphox/circuit/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..34f6145 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
@@ -174,7 +174,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From cf0b61790d1ba46e92e5924636a143040d9d4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 02/61] fix: aggregate keeps the phase style of the aggregated
 meshes

---
 simphox/circuit/forward.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..9dde227 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -146,7 +146,10 @@ class ForwardMesh:
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+        phase_styles = {obj.phase_style for obj in nodes_or_node_lists if not isinstance(obj, CouplingNode)}
+        if len(phase_styles) > 1:
+            raise ValueError(f"Cannot aggregate meshes with different phase styles {phase_styles}.")
+        return cls(all_nodes, phase_style=phase_styles.pop()) if phase_styles else cls(all_nodes)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
-- 
2.43.0


From fde58a150c8c7629b96561b19350e88482194f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 03/61] fix: backward node elements are the transpose of the
 forward elements

---
 simphox/circuit/forward.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 9dde227..ff53cd4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -682,6 +682,9 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     # stands for cos-cos, cos-sin, sin-cos, sin-sin terms.
     cc, cs, sc, ss = _mzi_terms(bs_errors, use_jax)
+    if back:
+        # reciprocity: the left and right splitters swap roles when light propagates backward
+        cs, sc = sc, cs
     # insertion (assume a fixed loss that is global for each node) expressed in terms of dB
     il, ir = np.log(10) * loss_errors.T / 20
 
@@ -701,10 +704,10 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (-phi - theta) / 2 + ir)
         t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta) / 2 + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
     return xp.array([t11, t12, t21, t22])
-- 
2.43.0


From 8c64e09280418421316d469ce98f68e1f025b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 04/61] fix: explicit directional couplers use the same
 splitting error convention as the node matrices

---
 simphox/circuit/forward.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index ff53cd4..6bd546c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -729,10 +729,10 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     right = int(right)
     insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    t11 = insertion * xp.cos(np.pi / 4 + errors)
+    t12 = insertion * 1j * xp.sin(np.pi / 4 + errors)
+    t21 = 1j * xp.sin(np.pi / 4 + errors)
+    t22 = xp.cos(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From de4a7ca05c71b69209d6139be2d11512267c16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 05/61] fix: matrix function accepts real inputs and does not
 write to its arguments

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6bd546c..7c4541e 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -205,7 +205,7 @@ class ForwardMesh:
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
                    bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From d197794c43756e81a95a03502f3c3c13ce796b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 06/61] fix: nullification phase for nodes with unequal left
 and right splitting errors

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7c4541e..5a4afe2 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -497,7 +497,7 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
         return theta, phi
 
     @property
-- 
2.43.0


From 9efba9349e9bc74380fcf40f34d788fef18bf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 07/61] fix: parallel_mzi uses the stored phis (not thetas) by
 default

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 5a4afe2..aba0c89 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -542,7 +542,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From 3e2b8ce6133565d7d32ec3ec3fa916f369b3b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 08/61] fix: programming of meshes with differential phase
 style

---
 simphox/circuit/forward.py | 9 ++++++++-
 simphox/circuit/vector.py  | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index aba0c89..cab2536 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -472,7 +472,7 @@ class ForwardMesh:
             vector = self.propagate(w.copy(), column_cutoff=nc.column_by_node[0], explicit=False)[-1]
             theta, phi = nc.parallel_nullify(vector, self.mzi_terms)
             self.thetas[nc.node_idxs] = theta
-            self.phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+            self.phis[nc.node_idxs] = np.mod(phi, self.phi_period)
 
     def parallel_nullify(self, vector: np.ndarray, mzi_terms: np.ndarray):
         """Assuming the mesh is a column, this method runs a parallel nullify algorithm to set up
@@ -498,8 +498,15 @@ class ForwardMesh:
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
         phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # the differential phase is applied with opposite sign to the top arm
         return theta, phi
 
+    @property
+    def phi_period(self):
+        # half phases are applied in both arms for the differential phase style
+        return 4 * np.pi if self.phase_style == PhaseStyle.DIFFERENTIAL else 2 * np.pi
+
     @property
     def params(self):
         return (self.thetas.copy(), self.phis.copy(), self.gammas.copy())
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..07f06e7 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -149,7 +149,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = np.mod(phi, network.phi_period)
 
     final_basis_vec = np.zeros(v.shape[0])
     final_basis_vec[-1] = 1
-- 
2.43.0


From f6f19b3dff87f776aaa8913ac34e7227c31b691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 09/61] fix: output phases of vector units embedded in a larger
 number of rails

---
 simphox/circuit/matrix.py | 2 +-
 simphox/circuit/vector.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..3b7c871 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -47,7 +47,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # Update the phases.
         thetas = np.hstack((thetas, network.thetas))
         phis = np.hstack((phis, network.phis))
-        gammas = np.hstack((network.gammas[-1], gammas))
+        gammas = np.hstack((network.gammas[i], gammas))
 
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 07f06e7..e2182a3 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -151,9 +151,8 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         thetas[nc.node_idxs] = theta
         phis[nc.node_idxs] = np.mod(phi, network.phi_period)
 
-    final_basis_vec = np.zeros(v.shape[0])
-    final_basis_vec[-1] = 1
-    gammas = -np.angle(final_basis_vec * w[-1, -1])
+    gammas = np.zeros(network.n)
+    gammas[v.shape[0] - 1] = -np.angle(w[-1, -1])
 
     network.params = thetas, phis, gammas
     # print(network.params)
-- 
2.43.0


From 68c4fc1757cca06eb3fc017a53c626e9572d99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 10/61] fix: meshes and columns without nodes

---
 simphox/circuit/forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index cab2536..3ab120c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -613,7 +613,7 @@ class ForwardMesh:
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.hstack((self.bs_errors, self.bs_errors))
+            return np.tile(self.bs_errors.reshape((-1, 1)), (1, 2))
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
             return self.bs_errors
         else:
@@ -623,7 +623,7 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.hstack((self.losses, self.losses))
+            return np.tile(self.losses.reshape((-1, 1)), (1, 2))
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
             return self.losses
         else:
-- 
2.43.0


From 19685f0e42f7290fb5dc6e6a11d5085a12124e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 11/61] fix: node errors and losses are ordered by node id, as
 the phases

---
 simphox/circuit/forward.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3ab120c..2dfd367 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -47,12 +47,12 @@ class ForwardMesh:
         self.bottom = [int(node.bottom) for node in self.nodes]
         self.bs_errors = np.array([node.bs_error for node in self.nodes])
         self.losses = np.array([node.loss for node in self.nodes])
-        self.mzi_terms = _mzi_terms(self.all_errors)
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
             for node, idx in zip(self.nodes, self.node_idxs):
                 node.node_id = idx
+        self.mzi_terms = _mzi_terms(self.all_errors)
         self.n = self.nodes[0].n if len(self.nodes) > 0 else 1
         self.alpha = np.array([node.alpha for node in self.nodes])
         self.beta = np.array([node.beta for node in self.nodes])
@@ -613,9 +613,9 @@ class ForwardMesh:
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.tile(self.bs_errors.reshape((-1, 1)), (1, 2))
+            return np.tile(self.bs_errors.reshape((-1, 1)), (1, 2))[np.argsort(self.node_idxs)]
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
-            return self.bs_errors
+            return self.bs_errors[np.argsort(self.node_idxs)]  # ordered by node id, as the phases
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.bs_errors.shape[-1]}, [1 or 2]).")
@@ -623,9 +623,9 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.tile(self.losses.reshape((-1, 1)), (1, 2))
+            return np.tile(self.losses.reshape((-1, 1)), (1, 2))[np.argsort(self.node_idxs)]
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
-            return self.losses
+            return self.losses[np.argsort(self.node_idxs)]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.losses.shape[-1]}, [1 or 2]).")
-- 
2.43.0


From 5024ce43b1b399eecee8d55fe21d55bda2db4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 12/61] fix: implicit propagation with jax

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 2dfd367..ed0c580 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -318,7 +318,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From 349a41452086118d6042cfa782190f05c15a4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 13/61] fix: index representation of a mesh without columns

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index ed0c580..9b5ede6 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -242,7 +242,7 @@ class ForwardMesh:
         cols = cols[::-1] if back else cols
         _top = [nc.top for nc in cols]
         num_nodes = [nc.num_nodes for nc in cols]
-        m = np.max(num_nodes)
+        m = max(num_nodes, default=0)
         _bottom = [nc.bottom for nc in cols]
         _node_idxs = [nc.node_idxs for nc in cols]
         top = np.zeros((len(num_nodes), m), dtype=np.int32)
-- 
2.43.0


From 9d7374e9b2ea69cb38323856c8a057cf2983547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 14/61] fix: vector units without nodes

---
 simphox/circuit/forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 9b5ede6..4ef9621 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -45,8 +45,8 @@ class ForwardMesh:
         self.num_nodes = len(self.nodes)
         self.top = [int(node.top) for node in self.nodes]
         self.bottom = [int(node.bottom) for node in self.nodes]
-        self.bs_errors = np.array([node.bs_error for node in self.nodes])
-        self.losses = np.array([node.loss for node in self.nodes])
+        self.bs_errors = np.array([node.bs_error for node in self.nodes]).reshape((-1, 2))
+        self.losses = np.array([node.loss for node in self.nodes]).reshape((-1, 2))
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
-- 
2.43.0


From 804756309ced11b074c247d16f6da7e4ee8c9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 15/61] fix: cosine-sine decomposition of degenerate unitaries

---
 simphox/circuit/matrix.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 3b7c871..9fb7fb2 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -9,7 +9,7 @@ from .vector import vector_unit
 from scipy.stats import unitary_group
 import numpy as np
 
-from scipy.linalg import svd, qr, block_diag
+from scipy.linalg import svd, cossin, block_diag
 from .coupling import CouplingNode
 from .forward import ForwardMesh
 
@@ -142,22 +142,13 @@ def cs(mat: np.ndarray):
     """
     n = mat.shape[0]
     m = n // 2
-    q00 = mat[:m, :m]
-    q10 = mat[m:, :m]
-    q01 = mat[:m, m:]
-    q11 = mat[m:, m:]
-    l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
+    # robust for degenerate blocks, e.g. (block) diagonal or permutation matrices
+    (l0, l1), theta, (r0, r1) = cossin(mat, p=m, q=m, separate=True)
+    # the uncoupled mode of an odd partition comes last
+    l1, r1 = np.roll(l1, -(n % 2), axis=1), -np.roll(r1, -(n % 2), axis=0)
     if n % 2:
-        r1[-1] *= phasor
-    return l0, l1, r0, r1, theta
+        r1[-1] *= -1
+    return l0, l1, r0, r1, np.pi / 2 - theta
 
 
 def csinv(l0: np.ndarray, l1: np.ndarray, r0: np.ndarray, r1: np.ndarray, theta: np.ndarray):
-- 
2.43.0


From 64e7e53092ecfad49937b1494fff44f0fb6d3b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 16/61] fix: np.int is removed from numpy, so no grid with a
 PML could be built

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..5d97f47 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -340,7 +340,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From 3183ce80cbdac6163ea7c434ec2b4065e6345a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 17/61] fix: grid no longer writes into the caller's
 permittivity array (or truncates to its integer type)

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 5d97f47..bbb65ce 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -73,7 +73,8 @@ class Grid:
         self.field_shape = (3, *self.shape3)
 
         self.n = np.prod(self.shape)
-        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps
+        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else \
+            np.array(eps, dtype=np.result_type(eps, float))
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
-- 
2.43.0


From c5a74c0bb95ace763b19058a9c563ce3bdc32e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 18/61] fix: a region crossing the lower edge of the grid is
 clipped instead of wrapping

---
 simphox/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index bbb65ce..26ceffd 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -207,9 +207,10 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+        # a region that starts before the grid is clipped (negative indices would wrap around)
+        return (slice(max(c[0] - s0, 0), max(c[0] - s0 + shape[0], 0)) if shape[0] > 0 else c0,
+                slice(max(c[1] - s1, 0), max(c[1] - s1 + shape[1], 0)) if shape[1] > 0 else c1,
+                slice(max(c[2] - s2, 0), max(c[2] - s2 + shape[2], 0)) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From 5857a142ec7a74c250c6f5bc1c9d902c6412e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 19/61] fix: set_eps and mask keep the shape of grids with
 single-cell axes

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 26ceffd..804e244 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -146,7 +146,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -164,7 +164,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From 50956c94f750ada3b96b025bed3038cd47779f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 20/61] fix: block_design without a substrate no longer erases
 the rib

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 804e244..1e429dd 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -302,7 +302,8 @@ class Grid:
         """
         if rib_y > 0:
             self.fill(rib_y + sub_height, waveguide.eps)
-        self.fill(sub_height, sub_eps)
+        if sub_height > 0 or rib_y <= 0:  # fill(0, ...) fills the whole grid, which would erase the rib
+            self.fill(sub_height, sub_eps)
         waveguide.align(self.center)
         if wg_height:
             waveguide.valign(wg_height)
-- 
2.43.0


From 1c33a0c9bfe29f7c75016b9070b881f1ebd4b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 21/61] fix: Grid.add rejects every pattern that is out of
 bounds

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 1e429dd..7612717 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -118,7 +118,7 @@ class Grid:
 
         """
         b = component.bounds
-        if not b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]:
+        if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
-- 
2.43.0


From 7a90568222d80e0e701224ff41d6849754ceb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 22/61] fix: Grid.add uses the z spacing for the vertical
 extent

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 7612717..8783111 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -125,7 +125,7 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = (int(zmin / self.spacing[2]), int((zmin + thickness) / self.spacing[2]))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From 483573d15ad6655585fd5b49523aa96c91216318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 23/61] fix: integer and array Bloch phases

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 8783111..25062cb 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -352,12 +352,12 @@ class YeeGrid(Grid):
         if pml is not None and not len(self.pml_shape) == len(self.shape):
             raise AttributeError('Need len(pml_shape) == grid.shape,'
                                  f'got ({len(pml)}, {len(self.shape)}).')
-        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if isinstance(bloch_phase, float) \
+        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if np.ndim(bloch_phase) == 0 \
             else np.exp(1j * np.asarray(bloch_phase))
         if not len(self.bloch) == len(self.shape):
             raise AttributeError(f'Need bloch_phase.size == grid.shape,'
                                  f'got ({len(self.bloch)}, {len(self.shape)}).')
-        self.dtype = np.float64 if pml is None and bloch_phase == 0 else np.complex128
+        self.dtype = np.float64 if pml is None and np.all(np.asarray(bloch_phase) == 0) else np.complex128
         self._dxes = np.meshgrid(*self.cells, indexing='ij'), np.meshgrid(*self.cells, indexing='ij')
 
     def deriv(self, back: bool = False) -> List[sp.spmatrix]:
-- 
2.43.0


From 011d75ef4ed210084eeab652d79b83baa2daf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 24/61] fix: the averaged permittivity of a Yee grid follows
 changes of the permittivity

---
 simphox/grid.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 25062cb..a64e16c 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -465,7 +464,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From d99fe3571006e3bc9582d8c0baa3d415e7634f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 25/61] fix: functional derivatives apply the Bloch phase like
 the derivative matrices

---
 simphox/grid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index a64e16c..44a4a1e 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -423,12 +423,19 @@ class YeeGrid(Grid):
         """
         xp = jnp if use_jax else np
         dx = jnp.array(self._dxes[of_h]) if use_jax else self._dxes[of_h]
+        # Bloch phase picked up by the neighbor that wraps around (same as in deriv)
+        phase = [1, 1, 1]
+        for ax, b in enumerate(self.bloch):
+            if self.shape[ax] > 1 and b != 1:
+                phase[ax] = np.ones(self.shape[ax], dtype=np.complex128)
+                phase[ax][0 if of_h else -1] = np.conj(b) if of_h else b
+                phase[ax] = phase[ax].reshape([-1 if i == ax else 1 for i in range(3)])
         if of_h:
             def _diff(f, a):
-                return (f - xp.roll(f, 1, axis=a)) / dx[a]
+                return (f - phase[a] * xp.roll(f, 1, axis=a)) / dx[a]
         else:
             def _diff(f, a):
-                return (xp.roll(f, -1, axis=a) - f) / dx[a]
+                return (phase[a] * xp.roll(f, -1, axis=a) - f) / dx[a]
         return _diff
 
     def curl_fn(self, beta: Optional[float] = None, of_h: bool = False, use_jax: bool = False) -> Op:
-- 
2.43.0


From ebff5b15dd5e620f7996a84986c2a5d81b4be7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 26/61] fix: a time-domain step leaves the state it is given
 unchanged

---
 simphox/fdtd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..e613cd1 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -117,13 +117,13 @@ class FDTD(SimGrid):
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
         # update pml in pml regions if specified
-        phi_e = []
+        phi_e, psi_e = [], psi_e if psi_e is None else list(psi_e)
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_e[pml_idx], p = self._curl_h_pml[pml_idx](h, psi_e[pml_idx], self.cpml_b[pml_idx][1])
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        e = e + self._curl_h(h) / self.eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
@@ -144,13 +144,13 @@ class FDTD(SimGrid):
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
         # update h field in pml regions if specified
-        phi_h = []
+        phi_h, psi_h = [], psi_h if psi_h is None else list(psi_h)
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_h[pml_idx], p = self._curl_e_pml[pml_idx](e, psi_h[pml_idx], self.cpml_b[pml_idx][0])
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From 6e2cd5293156c7b6a318903180c3ea5c01d1ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 27/61] fix: jax time-domain sources are added to the fields,
 as in numpy, instead of replacing them

---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index e613cd1..50c5181 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -135,7 +135,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / self.eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
 
@@ -162,7 +162,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From 0e92d6e2bc87509ee620c854d2556666aa765a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 28/61] fix: the absorber memory of the time-domain update
 accumulates over time steps as documented

---
 simphox/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..25a9650 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -182,13 +182,11 @@ def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = Fal
 
     def _curl(f: np.ndarray, prev_df: np.ndarray, b_pml: np.ndarray):
         next_df = xp.stack(
-            [df(f[2], 1), df(f[1], 2),
-             df(f[0], 2), df(f[2], 0),
-             df(f[1], 0), df(f[0], 1)]
+            [df(f[2], 1) + prev_df[0] * b_pml[1], df(f[1], 2) + prev_df[1] * b_pml[2],
+             df(f[0], 2) + prev_df[2] * b_pml[2], df(f[2], 0) + prev_df[3] * b_pml[0],
+             df(f[1], 0) + prev_df[4] * b_pml[0], df(f[0], 1) + prev_df[5] * b_pml[1]]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        return next_df, xp.stack([next_df[0] - next_df[1], next_df[2] - next_df[3], next_df[4] - next_df[5]])
     return _curl
 
 
-- 
2.43.0


From 44cf979ff9e0d2ec5adbfe94b5f490259b62cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 29/61] fix: time-domain absorbers work in one and two
 dimensions

---
 simphox/fdtd.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 50c5181..300acf4 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -307,15 +307,12 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+        self.pml_regions = tuple((slice(None),) + tuple(edge if ax == pml_ax else slice(None) for ax in range(3))
+                                 for pml_ax, t in enumerate(self.pml_shape)
+                                 for edge in (slice(None, t), slice(-t, None)))
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From afdb0908fc05fe5edb335553754b47cf4ea815f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 30/61] fix: the permittivity of a time-domain simulation
 follows changes of the permittivity

---
 simphox/fdtd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 300acf4..83f109a 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -345,7 +344,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
-- 
2.43.0


From c452626a6f47eb596dd22bf9a4d1ace0bd2d2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 31/61] fix: a harmonic time-domain run measures with the modes
 of its own wavelength

---
 simphox/fdtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 83f109a..ac85bd7 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -262,7 +262,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength=wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
-- 
2.43.0


From d5c1f68d9365b1e7236d16b83bfa6d16d38fdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 32/61] fix: from_simgrid keeps the absorber thickness and the
 Bloch phase of the grid

---
 simphox/fdfd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..b0097d0 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -115,7 +115,8 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            bloch_phase=np.angle(simgrid.bloch),
+            pml=simgrid.pml,
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From 88aee2bca6bc3680bad05186ce322578454a07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 33/61] fix: mode propagation constants stay paired with their
 modes when evanescent solutions are dropped

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b42b02f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From 795e81a0bb1ce95059e6bd6c636c54645640945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 34/61] fix: a dispersion sweep solves at each wavelength
 instead of using it as a propagation constant guess

---
 simphox/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b42b02f..dd589db 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,11 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        initial_wavelength = self.wavelength
+        for wavelength in wavelengths if pbar is None else pbar(wavelengths):
+            self.wavelength = wavelength
+            solutions.append(self.solve(m))
+        self.wavelength = initial_wavelength
         return solutions
 
 
-- 
2.43.0


From fb21d2f82c0f6de3e6cbd88aa629a05cf141b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 35/61] fix: the Poynting flux is defined along every axis

---
 simphox/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 25a9650..386f321 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -146,11 +146,11 @@ def poynting_fn(axis: int = 2, use_jax: bool = False):
     xp = jnp if use_jax else np
 
     def poynting(e: np.ndarray, h: np.ndarray):
-        e_cross = xp.stack([(e[ax[0]] + xp.roll(e[ax[0]], shift=1, axis=1)) / 2,
-                            (e[ax[1]] + xp.roll(e[ax[1]], shift=1, axis=0)) / 2])
-        h_cross = xp.stack([(h[ax[0]] + xp.roll(h[ax[0]], shift=1, axis=0)) / 2,
-                            (h[ax[1]] + xp.roll(h[ax[1]], shift=1, axis=1)) / 2])
-        return e_cross[ax[0]] * h_cross.conj()[ax[1]] - e_cross[ax[1]] * h_cross.conj()[ax[0]]
+        e_cross = xp.stack([(e[ax[0]] + xp.roll(e[ax[0]], shift=1, axis=ax[1])) / 2,
+                            (e[ax[1]] + xp.roll(e[ax[1]], shift=1, axis=ax[0])) / 2])
+        h_cross = xp.stack([(h[ax[0]] + xp.roll(h[ax[0]], shift=1, axis=ax[0])) / 2,
+                            (h[ax[1]] + xp.roll(h[ax[1]], shift=1, axis=ax[1])) / 2])
+        return e_cross[0] * h_cross.conj()[1] - e_cross[1] * h_cross.conj()[0]
 
     return poynting
 
-- 
2.43.0


From fb30748daada89994f71531b8f11e195db233232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 36/61] fix: placing a cross-sectional mode fills its region of
 a 3d grid with the reoriented field

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index dd589db..1f47bd4 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -515,7 +515,7 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(None,) + region] = self.h(mode_idx).transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + grid.slice(center, size, squeezed=False)] = self.h(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
-- 
2.43.0


From 56cc990acb79a45d1b002bbabf036b83fdb634c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 37/61] fix: 3d port sources are shifted along the propagation
 axis, not along the field components

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..3aa0c83 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -182,9 +182,10 @@ class SimGrid(YeeGrid):
             beta = source_library[port].io.betas[mode]
             shift = 2 * (np.mod(self.port[port].a, 360) < 180) - 1
             src = source_library[port].place(mode, self) * weight
-            src = np.roll(src, axis=axis, shift=2 * shift)
+            roll_axis = axis + src.ndim - self.ndim  # 3d sources have a leading component axis
+            src = np.roll(src, axis=roll_axis, shift=2 * shift)
             if unidirectional:
-                src += np.roll(src, axis=axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
+                src += np.roll(src, axis=roll_axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
             sources_to_sum.append(src)
 
         return sum(sources_to_sum) if sources_to_sum else np.array([])
-- 
2.43.0


From b775f56cc7469eaaf3c038bed20b00981660c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 38/61] fix: one-element and empty lists are accepted as
 excitations and sources

---
 simphox/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..c7ccd9f 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -14,8 +14,8 @@ def parse_excitation(excitation: Excitation):
     if isinstance(excitation, str):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
-            return [excitation]
+        if len(excitation) == 2 and (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int):
+            return [tuple(excitation)]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
         return sum([parse_excitation([(mi, idx) for idx in excitation[mi]]) for mi in excitation], [])
@@ -34,7 +34,7 @@ def parse_source_port(source: SourceLabel):
     if isinstance(source, str):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], str) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-- 
2.43.0


From 1404ea8274affa09d9754e4b6ace1359d17d5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 39/61] fix: measurements follow the requested order, with the
 orientation of each measured port and every requested mode

---
 simphox/sim.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 3aa0c83..4c60bd5 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -211,9 +211,8 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
-        port_nums = np.arange(len(ports))
-        angles = [self.port[port].a for port in ports]
+        port_nums = np.arange(len(measure_port))
+        angles = [self.port[port].a for port, _ in measure_port]
         # We measure polarity, which is the orientation of the measurement interface
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
-- 
2.43.0


From 6fbb98f29074ba57235e8d1ee2dfa0de7890774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 40/61] fix: a port source accepts weights per port name and
 solves for the excited modes

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 4c60bd5..c49dae0 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -6,7 +6,7 @@ import jax.numpy as jnp
 
 from .grid import YeeGrid
 from .mode import ModeSolver, ModeLibrary
-from .parse import parse_excitation
+from .parse import parse_excitation, parse_source_port
 from .typing import Excitation, Spacing, Shape, Union, Size, Optional, List, Tuple, Size2, Dict, Size3, \
     Callable, \
     MeasureInfo, Op, PortLabel
@@ -173,7 +173,8 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = parse_source_port(source)
+        source_library = self.port_modes(list(source), profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
-- 
2.43.0


From d76598e1626f42c78c587a5d67a9969a8dcee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 41/61] fix: scattering parameters are those of the requested
 ports and modes, in their order

---
 simphox/fdfd.py | 2 +-
 simphox/sim.py  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index b0097d0..5c2d48a 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -309,8 +309,8 @@ class FDFD(SimGrid):
             Sparams measured at the ports specified in the class.
 
         """
+        measure_info = self.parse_excitation(measure_info)
         measure_fn = self.get_measure_fn(measure_info)
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
         h = self.solve(self.port_source({(port_name, mode_idx): 1}))
         s_out, s_in = measure_fn(h)
         src_sparam_reference = measure_info.index((port_name, mode_idx))
diff --git a/simphox/sim.py b/simphox/sim.py
index c49dae0..f18c25d 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -303,12 +303,13 @@ class SimGrid(YeeGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`)
 
         """
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
+        measure_info = self.parse_excitation(measure_info)
         source_info = (port_name, mode_idx) if port_name is not None else measure_info[0]
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, profile_size_factor=profile_size_factor,
+                                         use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From b4ae7360ed8e7796e68f08c8e9b9070a9acaaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 42/61] fix: port modes of a frequency-domain simulation are
 those of its own wavelength

---
 simphox/sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index f18c25d..b167a99 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -126,13 +126,13 @@ class SimGrid(YeeGrid):
         return SimCrossSection(modes, center, size, wavelength)
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
-                   profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
+                   profile_size_factor: float = 3, wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
         """Profile for all the ports in the grid (always assumed to be along x or y axes!).
 
         Args:
             excitation: Dictionary mapping port to mode index for excitations
             profile_size_factor: Factor to rescale the mode view slice compared to the port
-            wavelength: Wavelength for the modes
+            wavelength: Wavelength for the modes (defaults to the wavelength of the simulation, or 1.55 if it has none)
 
         Returns:
             A dictionary from mode to SimCrossSection containing the mode, and its center and size in this grid
@@ -140,6 +140,7 @@ class SimGrid(YeeGrid):
 
         """
 
+        wavelength = getattr(self, 'wavelength', 1.55) if wavelength is None else wavelength
         excitation = self.parse_excitation(excitation)
         port_names = {e[0] for e in excitation}
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
@@ -152,7 +153,7 @@ class SimGrid(YeeGrid):
 
     def port_source(self, source: Optional[Union[Dict[Tuple[str, int], float], Dict[str, float]]] = None,
                     profile_size_factor: float = 3, unidirectional: bool = True,
-                    wavelength: float = 1.55) -> np.ndarray:
+                    wavelength: Optional[float] = None) -> np.ndarray:
         """Return a non-sparse source array based on the ports defined in the simulation grid.
 
         Args:
@@ -194,7 +195,7 @@ class SimGrid(YeeGrid):
     def parse_excitation(self, excitation: Optional[Excitation] = None):
         return [(port, 0) for port in self.port] if excitation is None else parse_excitation(excitation)
 
-    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: float = 1.55,
+    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: Optional[float] = None,
                        profile_size_factor: float = 3, use_jax: bool = False, tm_2d: bool = True) -> Op:
         """Measure function: measure the fields using the Modes object provided for each port.
 
-- 
2.43.0


From fc6c0e0612990ac2f644e62df10861ada0c3d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 43/61] fix: the fidelity is greatest at the desired scattering
 parameters, not at their conjugates

---
 simphox/sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index b167a99..99b3ffb 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -493,12 +493,12 @@ class SimGrid(YeeGrid):
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
                 sparams, fields = sparams_fields
                 insertion_sqrt = jnp.linalg.norm(sparams)
-                cost = -jnp.abs(s @ (sparams / insertion_sqrt)) ** 2 * (
+                cost = -jnp.abs(s.conj() @ (sparams / insertion_sqrt)) ** 2 * (
                     1 - insertion_weight) - insertion_sqrt ** 2 * insertion_weight
                 return cost, jax.lax.stop_gradient((sparams, fields))
         else:
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
                 sparams, fields = sparams_fields
-                return -jnp.abs(s @ sparams) ** 2, jax.lax.stop_gradient((sparams, fields))
+                return -jnp.abs(s.conj() @ sparams) ** 2, jax.lax.stop_gradient((sparams, fields))
 
         return obj
-- 
2.43.0


From bc3e4633e0b76c6f0144ca1b9e068a96b9f9ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 44/61] fix: waves leaving and entering ports along y are not
 interchanged

---
 simphox/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/sim.py b/simphox/sim.py
index 99b3ffb..aeb6e14 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -219,6 +219,9 @@ class SimGrid(YeeGrid):
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
         polarity = 2 * (np.mod(angles, 360) < 180).astype(int) - 1
+        # The view of a cross section along y reflects the fields, which reverses the sign of the flux
+        reflect = np.array([port_to_modes[port].prop_axis == 1 for port, _ in measure_port], dtype=int)
+        polarity = polarity * (1 - 2 * reflect)
         measure_fns = [port_to_modes[port_name].io.measure_fn(m, use_jax, tm_2d=tm_2d) for port_name, m in measure_port]
         view_fns = [self.view_fn(port_to_modes[port_name].center, port_to_modes[port_name].size, use_jax)
                     for port_name, _ in measure_port]
-- 
2.43.0


From aa3509a0a21f7ba2a5d0a2106909f65153167265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 45/61] fix: the direct solver reuses its factors only for
 exactly the factorized matrix, and not after a failed call

---
 simphox/mkl.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..4b69681 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -100,7 +100,7 @@ class Pardiso:
         self.iparm[34] = 1  # Zero-indexing
 
         self.phase = PARDISO_FULLSOLVE
-        self._mat_hash = 0  # no matrix has been factorized yet, and this is an unlikely hash for it to be assigned
+        self._mat_content = None  # content of the factorized matrix (no matrix has been factorized yet)
 
     @property
     def is_complex(self) -> bool:
@@ -110,11 +110,18 @@ class Pardiso:
     def is_real(self) -> bool:
         return self.mtype in (2, -2, 11)
 
+    @staticmethod
+    def _content(mat: sp.csr_matrix):
+        """The exact content of a matrix (comparing a hash or a printed form could take different matrices for equal)"""
+        return mat.shape, mat.dtype.str, mat.indptr.tobytes(), mat.indices.tobytes(), mat.data.tobytes()
+
     def _set_mat(self, mat: sp.csr_matrix):
         # If mat is symmetric, store only the upper triangular portion
         if self.mtype in [2, -2, 4, -4, 6]:
             mat = sp.triu(mat, format='csr')
 
+        mat = mat.copy()  # the factors stay those of this matrix when the given one changes later
+
         if mat.dtype != self.dtype:
             raise ValueError(f"Expected mat.dtype to match chosen mtype but got {mat.dtype} != {self.dtype}")
         if mat.shape[0] != mat.shape[1] or mat.ndim > 2:
@@ -139,26 +146,34 @@ class Pardiso:
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         self.pardiso()
+        self._mat_content = None
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
+        content = self._content(mat)
         self._set_mat(mat)
-        self._mat_hash = mat_hash
-        self.pardiso()
+        self._mat_content = content
+        self._call_or_forget()
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
-        if mat_hash != self._mat_hash:
+        content = self._content(mat)
+        if content != self._mat_content:
             self._set_mat(mat)
-            self._mat_hash = mat_hash
+            self._mat_content = content
             self.phase = PARDISO_FULLSOLVE
         else:
             self.phase = PARDISO_SOLVE
-        return self.pardiso(rhs)
+        return self._call_or_forget(rhs)
+
+    def _call_or_forget(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
+        try:
+            return self.pardiso(rhs)
+        except RuntimeError:
+            self._mat_content = None  # there are no usable factors after a failed call
+            raise
 
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
-        if self._mat_hash == 0:
+        if self._mat_content is None:
             raise RuntimeError('Mat information not stored in Pardiso.')
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
-- 
2.43.0


From 51ffe9fa8b0aa46ab512f9c93027742fa812d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 46/61] fix: the direct solver returns one solution column per
 right hand side

---
 simphox/mkl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 4b69681..cde4273 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -179,8 +179,9 @@ class Pardiso:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
+        shape = None if rhs is None else rhs.shape
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
-        x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
+        x = np.zeros(1) if shape is None else np.zeros(nrhs * self.n, dtype=self.dtype)
         rhs_ = rhs.ctypes.data_as(self.ctypes_dtype)
         x_ = x.ctypes.data_as(self.ctypes_dtype)
 
@@ -213,7 +214,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From dffdfb6473608f0c22bf4bafbb1afc14c47b9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 47/61] fix: modes of a section are solved again when its
 permittivity has changed

---
 simphox/sim.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index aeb6e14..27c153d 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import jax
 import numpy as np
 import jax.numpy as jnp
@@ -102,11 +100,11 @@ class SimGrid(YeeGrid):
         """
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
+        self._modes = {}
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
-        it only computes the modes if the input parameters are provided.
+        it only computes the modes if the input parameters or the permittivity of the region have changed.
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
@@ -118,12 +116,15 @@ class SimGrid(YeeGrid):
             A Tuple of a Modes object and view function for measuring the fields.
         """
         mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
-        modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
-            max_num_modes=num_modes
-        )
-        return SimCrossSection(modes, center, size, wavelength)
+        key = (center, size, wavelength, num_modes)
+        if key not in self._modes or not np.array_equal(self._modes[key][0], mode_eps):
+            mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+            modes = ModeLibrary(
+                ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+                max_num_modes=num_modes
+            )
+            self._modes[key] = mode_eps.copy(), SimCrossSection(modes, center, size, wavelength)
+        return self._modes[key][1]
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
                    profile_size_factor: float = 3, wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
-- 
2.43.0


From e87e7a66516085fadfd34fdd12e91e81de953d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 48/61] fix: an optimization runs and records its metrics
 without a progress bar or visualizer, at any interval

---
 simphox/opt.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..4244327 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -188,6 +188,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     costs = []
     history = defaultdict(list)
+    recorded_metric_names = []
 
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
@@ -202,18 +203,20 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                    if metric_name not in recorded_metric_names:
+                        recorded_metric_names.append(metric_name)
+                for title in viz.metrics_pipes[sop.sim.name] if viz is not None else []:
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -223,24 +226,27 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if pbar is not None:
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    metric_problems = [sop for sop in sim_opt_problems if sop.metrics_fn is not None]
+    all_metric_names = recorded_metric_names if viz is None else \
+        sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in sim_opt_problems]),
+                        for metric_name in all_metric_names] for sop in metric_problems]),
         coords={
-            'name': [sop.sim.name for sop in sim_opt_problems],
+            'name': [sop.sim.name for sop in metric_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 else []
+    ) if metric_problems and metric_interval != 0 else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
                        for sop in sim_opt_problems]),
-- 
2.43.0


From e2d3db592a3b51aa2c0a5c51807931a133deb758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 49/61] fix: simulations of an optimization are recorded with
 their own data when other problems have no simulation

---
 simphox/opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 4244327..9059365 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -193,7 +193,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        sim_data = [aux for op, aux in zip(opt_problems, data) if op.sim is not None and op.source is not None]
+        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
-- 
2.43.0


From 44576331628d2c1f09268aeed5e610f4243dc27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 50/61] fix: problems without a simulation, source or transform
 are optimized as documented

---
 simphox/opt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 9059365..439de71 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -61,8 +61,10 @@ class OptProblem:
     metrics_fn: Optional[Callable[[np.ndarray, SimGrid], Dict]] = None
 
     def __post_init__(self):
+        if self.transform_fn is None:
+            self.transform_fn = lambda rho: rho
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
-            if self.source is not None else self.transform_fn
+            if self.source is not None and self.sim is not None else self.transform_fn
 
 
 @fix_dataclass_init_docs
@@ -165,10 +167,10 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             raise ValueError("Number of viz_pipes must match number of opt problems")
 
     # Define the simulation and objective function acting on parameters rho
-    solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
+    solve_fn = [op.fn for op in opt_problems]
 
     def overall_cost_fn(rho: jnp.ndarray):
-        evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
+        evals = [op.cost_fn(s(rho)) for op, s in zip(opt_problems, solve_fn)]
         return jnp.array([obj for obj, _ in evals]).sum() / n_problems, [aux for _, aux in evals]
 
     # Define a compiled update step
@@ -180,7 +182,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
-            op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
+            if op.sim is not None:
+                op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
 
     step = jax.jit(step_, backend=backend)
 
-- 
2.43.0


From 944ea3aa905b5b47876595315a11f56a963edd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 51/61] fix: records of simulations of the same name are kept
 apart

---
 simphox/opt.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 439de71..3b9733a 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -197,7 +197,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
         sim_data = [aux for op, aux in zip(opt_problems, data) if op.sim is not None and op.source is not None]
-        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
+        for k, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
@@ -210,13 +210,13 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
-                    history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
+                    history['metric', metric_name, k].append(metric_value)
                     if metric_name not in recorded_metric_names:
                         recorded_metric_names.append(metric_name)
                 for title in viz.metrics_pipes[sop.sim.name] if viz is not None else []:
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
-                            data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
+                            data=np.asarray([history['metric', metric_name, k]
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
@@ -227,9 +227,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
+                history['eps', k].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
-                history[f'field/{sop.sim.name}'].append((i, hz.T))
+                history['field', k].append((i, hz.T))
         if pbar is not None:
             iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
@@ -237,14 +237,14 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    metric_problems = [sop for sop in sim_opt_problems if sop.metrics_fn is not None]
+    metric_problems = [(k, sop) for k, sop in enumerate(sim_opt_problems) if sop.metrics_fn is not None]
     all_metric_names = recorded_metric_names if viz is None else \
         sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in metric_problems]),
+        data=np.array([[history['metric', metric_name, k]
+                        for metric_name in all_metric_names] for k, _ in metric_problems]),
         coords={
-            'name': [sop.sim.name for sop in metric_problems],
+            'name': [sop.sim.name for _, sop in metric_problems],
             'metric': all_metric_names,
             'iteration': np.arange(0, num_iters, metric_interval)
         },
@@ -252,11 +252,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='metrics'
     ) if metric_problems and metric_interval != 0 else []
     eps = xarray.DataArray(
-        data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
-                       for sop in sim_opt_problems]),
+        data=np.array([[eps for _, eps in history['eps', k]] if eps_interval > 0 else []
+                       for k in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'eps/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['eps', 0]],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
@@ -264,11 +264,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='eps'
     ) if sim_opt_problems and eps_interval != 0 else []
     fields = xarray.DataArray(
-        data=np.asarray([[field for _, field in history[f'field/{sop.sim.name}']] if field_interval > 0 else []
-                         for sop in sim_opt_problems]),
+        data=np.asarray([[field for _, field in history['field', k]] if field_interval > 0 else []
+                         for k in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'field/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['field', 0]],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
-- 
2.43.0


From da8823913bb06dec4de83ff02ed57aca9f4d1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 52/61] fix: mirrored designs of even size are symmetric

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..80bf7ed 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[-((x.shape[0] + 1) // 2):, :].set(x[:(x.shape[0] + 1) // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, -((x.shape[1] + 1) // 2):].set(x[:, :(x.shape[1] + 1) // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From 8d2c9ff54ca40d3d88cb58b04f4d502d209ca814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 53/61] fix: a list of boxes masks a design

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 80bf7ed..fe5fc69 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From 5739a1802a4027205b731df6af1802bed8d34f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 54/61] fix: the derivative of the mode operator is available

---
 simphox/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..0c543b2 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float64))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
-- 
2.43.0


From 257332f8bd45fe802d63cec41b9b3aec71246583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 55/61] fix: in situ gradients belong to the phase shifters of
 their own node and arm

---
 simphox/circuit/forward.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4ef9621..5a9950c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -533,16 +533,20 @@ class ForwardMesh:
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
+        columns = self.columns
+        # the phase shifters are in the arm given by the phase style, the phases are ordered by node index
+        arms = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
+        order = np.argsort(np.hstack([nc.node_idxs for nc in columns]))
         if prop_powers.ndim == 3:
             return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
+                xp.vstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)]).sum(axis=-1)[order],
+                xp.vstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)]).sum(axis=-1)[order],
                 prop_powers[-1].sum(axis=-1)
             )
         elif prop_powers.ndim == 2:
             return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
+                xp.hstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)])[order],
+                xp.hstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)])[order],
                 prop_powers[-1]
             )
 
-- 
2.43.0


From 4c94dfd54396eecac10b51c4ef66332fde00fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 56/61] fix: in situ gradients of a single input given as a
 column

---
 simphox/circuit/forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 5a9950c..c67d662 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -387,7 +387,7 @@ class ForwardMesh:
 
             if all_analog:
                 # instead of using digital subtraction of backpropagating signals, use only forward prop'd signal
-                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).squeeze()
+                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).reshape(inputs.shape)
                 adjoint_inputs_abs = jnp.abs(jnp.abs(adjoint_inputs) * (1 + io_amp_error_std * np.random.randn(*adjoint_inputs.shape)))
                 adjoint_inputs_phase = jnp.angle(adjoint_inputs) + io_phase_error_std * np.random.randn(*adjoint_inputs.shape) * np.pi
                 adjoint_inputs = adjoint_inputs_abs * jnp.exp(1j * adjoint_inputs_phase)
@@ -401,7 +401,7 @@ class ForwardMesh:
             else:
                 forward = forward_prop_fn(params, inputs, bs_errors, loss_errors)
                 adjoint = backward_prop_fn(params, g, bs_errors, loss_errors)[::-1]
-                adjoint_inputs = adjoint[0]
+                adjoint_inputs = adjoint[0].reshape(inputs.shape)
                 sum = forward_prop_fn(params, inputs - 1j * jnp.conj(adjoint_inputs), bs_errors, loss_errors)
                 sum_abs, forward_abs, adjoint_abs = jnp.abs(sum), jnp.abs(forward), jnp.abs(adjoint)
                 sum_meas = sum_abs ** 2 + tap_pd_shot_noise * sum_abs * np.random.randn(*forward.shape)
-- 
2.43.0


From 060fd13eaf38fb84d0819cfdad17c1138c1d4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 57/61] fix: in situ gradients of a vanishing input or
 cotangent vanish

---
 simphox/circuit/forward.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index c67d662..3c58832 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -381,6 +381,7 @@ class ForwardMesh:
 
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
+            inorm, gnorm = jnp.where(inorm == 0, 1, inorm), jnp.where(gnorm == 0, 1, gnorm)
 
             inputs /= inorm
             g /= gnorm
-- 
2.43.0


From 81df53f93dbbc56c538e6e940fd8642b2983b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 58/61] fix: in situ gradients of the inputs have the scale of
 the cotangent

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3c58832..7ad7496 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -412,7 +412,8 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            inputs_grad = adjoint_inputs * gnorm if jnp.iscomplexobj(inputs) else (adjoint_inputs * gnorm).real
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), inputs_grad, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 8b37132674625d98d4e1a6394d601d38f8d49de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 59/61] fix: direct_transmissivity of small amplitudes was
 distorted by the added machine epsilon

---
 simphox/circuit/coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 34f6145..731696d 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -203,7 +203,8 @@ def direct_transmissivity(top: np.ndarray, bottom: np.ndarray):
         The transmissivities
 
     """
-    return np.abs(top) ** 2 / (np.abs(top) ** 2 + np.abs(bottom) ** 2 + np.spacing(1))
+    norm = np.hypot(np.abs(top), np.abs(bottom), dtype=np.float64)
+    return (np.abs(top) / np.where(norm > 0, norm, 1)) ** 2
 
 
 def transmissivity_to_phase(s: Union[float, np.ndarray], mzi_terms: np.ndarray = None):
-- 
2.43.0


From 8472ad307fb58d1a5679eca70655b16a6d2e3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 60/61] fix: ForwardMesh.propagate failed for its default
 inputs (None)

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7ad7496..095bc0a 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -434,7 +434,8 @@ class ForwardMesh:
             Propagated fields
 
         """
-        return self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)(inputs=inputs)
+        propagate = self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)
+        return propagate() if inputs is None else propagate(inputs=inputs)
 
     @property
     def nullification_basis(self):
-- 
2.43.0


From cbb09010ad07f3648049703ec2dbf22e6a6edb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 61/61] fix: a rib without substrate is kept by from_pattern

---
 simphox/fdfd.py | 3 ++-
 simphox/fdtd.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 5c2d48a..047d80b 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -293,7 +293,8 @@ class FDFD(SimGrid):
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, wavelength=wavelength, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z > 0 or rib_t <= 0:  # fill(0, ...) fills the whole grid, which would erase the rib
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index ac85bd7..1b266b0 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -85,7 +85,8 @@ class FDTD(SimGrid):
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z > 0 or rib_t <= 0:  # fill(0, ...) fills the whole grid, which would erase the rib
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
-- 
2.43.0

