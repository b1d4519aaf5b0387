From 6c2bbdc3f78b49f7492212c4dd0d47e2e926f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 01/25] fix: Pfaffian orientation and planar matching counts
 depended on node labels and insertion order

---
 src/ff/ff_graph_theory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..5adaa12 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -548,6 +548,9 @@ def pfo_algorithm(graph, verbose=False):
     Returns:
         NumPy array representing the pfaffian ordering matrix
     """
+    # index nodes by position, as in the adjacency matrix
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 5ffffa46acf6cb2c471f75b12d643e9d7c02f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 02/25] fix: count_perfect_matchings_planar raised on
 disconnected and edgeless graphs

---
 src/ff/ff_graph_theory.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 5adaa12..2d3e6ec 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -487,6 +487,17 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    components = list(nx.connected_components(graph))
+    if any(len(nodes) % 2 != 0 for nodes in components):
+        return 0
+        # an odd component cannot be perfectly matched
+
+    if len(components) > 1:
+        # the components are matched independently
+        return np.prod(
+            [count_perfect_matchings_planar(graph.subgraph(c)) for c in components]
+        )
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From 84e2ce0af3ce919b020c293e35b51e5643e19cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 03/25] fix: compute_cov_matrix without n_sites raised
 TypeError

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..a4d9b6a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From ef07641e03ce1688b7e6490517a3bb4fa363e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 04/25] fix: kron_plus failed for rectangular blocks

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 36a9777f2afcf2f663a09510be8e80bf67384cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 05/25] fix: generate_random_planar_graph ignored seed=0

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 2d3e6ec..e15d984 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From f1ad5785461c06d0eb4ab6faef99c563f89b2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 06/25] fix: generate_random_planar_graph(1) raised ValueError

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e15d984..37bbd6a 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -192,7 +192,7 @@ def generate_random_planar_graph(n, seed=None):
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
     for _ in range(max_attempts):
-        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
+        G = nx.gnm_random_graph(n, random.randint(n - 1, max(n - 1, 2 * n - 3)))
 
         # Generate a random graph
         if nx.check_planarity(G)[0] and nx.is_connected(G):
-- 
2.43.0


From 51445632d6f038625e6722a11cd4177f60c157aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 07/25] fix: generate_gaussian_state did not lift the
 coefficient matrix when 2n == 2**n

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a4d9b6a..6939c34 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -735,7 +735,7 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if H.shape[0] == 2 * n_sites:
         H_op = build_op(n_sites, H, alphas)
 
-    if H.shape[0] == 2**n_sites:
+    elif H.shape[0] == 2**n_sites:
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From 1a497f0a6ecfe1e3cb6b0dc10c0871afc3cfa7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 08/25] fix: random_FF_state(pure=True, returnH=True) returned
 an unrelated generator when unseeded

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6939c34..3965ef8 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # The generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From a8d66ab89e863119c88294b95c65932926653139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 09/25] fix: permutation_to_matrix accepted lists with repeated
 entries

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 3965ef8..30cda21 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From 0ded184c9b2372f97c0dae348b61e2edddfe5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 10/25] fix: eigh_sp reordered blocks with the inverse of the
 permutation to A's eigenvalue order

---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 30cda21..a9faeda 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1109,7 +1109,7 @@ def eigh_sp(H):
         perm_l = np.argsort(np.abs(evs_l))
 
         # L eigenvalues sorted in order of A
-        evs_l_mag = evs_l[perm_l[perm_A]]
+        evs_l_mag = evs_l[perm_l[np.argsort(perm_A)]]
 
         # flipping L eigenvalues to match sign structure of A
         Flips = np.eye(2 * n_sites)
@@ -1121,7 +1121,7 @@ def eigh_sp(H):
                 Flips[2 * i + 1, 2 * i + 1] = 0
 
         # permutation matrix for blocks
-        P_blocks = np.kron(permutation_to_matrix(perm_l[perm_A]), np.eye(2))
+        P_blocks = np.kron(permutation_to_matrix(perm_l[np.argsort(perm_A)]), np.eye(2))
 
         # The permutation matrix for rearrange L
         P = P_blocks @ Flips
-- 
2.43.0


From 48bcf9435df7cd4198d2fbbd8e8b361f925cfe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 11/25] fix: eigm_sp_can blocks were misaligned when zero modes
 precede nonzero ones

---
 src/ff/ff_lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a9faeda..6259e2f 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1243,8 +1243,13 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
+    # zero eigenvalues go last so that the pairs stay aligned
+    def sfunction(x, y=None):
+        z = x if y is None else x + y * 1j
+        return abs(z) > 1e-10
+
     # from scipy.linalg
-    [L, O] = schur(iG)
+    [L, O, _] = schur(iG, sort=sfunction)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From 4fb81d055b7d532eaf007ed481673d86a1aca2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 12/25] fix: pfo_algorithm returned an orientation that was not
 antisymmetric

---
 src/ff/ff_graph_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 37bbd6a..20df06a 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -443,10 +443,10 @@ def complete_face(pfo, edges, verbose=False):
 
     if sign == -1:
         pfo[u, v] = prefix
-        pfo[v, u] = prefix
+        pfo[v, u] = -1 * prefix
     else:
         pfo[u, v] = -1 * prefix
-        pfo[v, u] = -1 * prefix
+        pfo[v, u] = prefix
 
     return pfo
 
-- 
2.43.0


From d80832f3f797f53b0669b88bbaaeb0e5fb207e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:54 +0000
Subject: [PATCH 13/25] fix: count_perfect_matchings ignored edge weights of
 non-planar graphs

---
 src/ff/ff_graph_theory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 20df06a..e3e9f2d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -467,7 +467,10 @@ def count_perfect_matchings(graph):
     if nx.is_planar(graph):
         return count_perfect_matchings_planar(graph)
     else:
-        return len(find_perfect_matchings_brute(graph))
+        return sum(
+            np.prod([graph[u][v].get("weight", 1) for u, v in matching])
+            for matching in find_perfect_matchings_brute(graph)
+        )
 
 
 def count_perfect_matchings_planar(graph):
-- 
2.43.0


From 8c1b1bd40b8e5fe30ab6f504e2b32b03878d9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 14/25] fix: nearly deterministic probability vectors were cast
 as wavefunctions or refused

---
 src/ff/ff_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..3aca76f 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -228,7 +228,11 @@ def cast_to_density_matrix(rho):
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
         # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        # (nearly deterministic distributions also have L2 norm ≈ 1)
+        if np.allclose(l2_norm, 1) and not (
+            abs(l1_norm - 1) < abs(l2_norm - 1)
+            and np.all(rho_flat == np.abs(rho_flat))
+        ):
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0


From c0a0061eaa6b3dd663025dc061ee568ea60ebef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 15/25] fix: keep the sign of planar matching counts with
 negative weights

---
 src/ff/ff_graph_theory.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e3e9f2d..5a614d9 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -511,9 +511,47 @@ def count_perfect_matchings_planar(graph):
     pfoA = np.triu(pfoA)
     pfoA = pfoA - pfoA.T
 
+    if np.any(A < 0):
+        # the square root loses the sign of the total; under the orientation
+        # every matching enters the Pfaffian with the sign it has for |A|
+        absA = np.triu(np.multiply(pfo, np.abs(A)))
+        sign = _pf_sign(pfoA) * _pf_sign(absA - absA.T)
+        return sign * clean(np.sqrt(dt_eigen(pfoA)), 10)
+
     return clean(np.sqrt(dt_eigen(pfoA)), 10)
 
 
+def _pf_sign(A):
+    """
+    Sign of the Pfaffian of a real antisymmetric matrix, by skew elimination.
+
+    Args:
+        A: A real antisymmetric matrix of even order
+
+    Returns:
+        1, -1, or 0 if the Pfaffian vanishes
+    """
+    A = np.array(A, dtype=float)
+    n = A.shape[0]
+    sign = 1
+
+    for k in range(0, n, 2):
+        p = k + 1 + int(np.argmax(np.abs(A[k, k + 1 :])))
+        if A[k, p] == 0:
+            return 0
+        if p != k + 1:
+            A[[k + 1, p], :] = A[[p, k + 1], :]
+            A[:, [k + 1, p]] = A[:, [p, k + 1]]
+            sign = -sign
+        if A[k, k + 1] < 0:
+            sign = -sign
+        row = A[k, k + 2 :] / A[k, k + 1]
+        update = np.outer(A[k + 1, k + 2 :], row)
+        A[k + 2 :, k + 2 :] += update - update.T
+
+    return sign
+
+
 def find_perfect_matchings_brute(graph):
     """
     Find all perfect matchings in a graph using a brute force enumeration.
-- 
2.43.0


From a1c83334182c300ead0bc47adffd4220722bbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 16/25] fix: planar matching counts raised on graphs with
 self-loops

---
 src/ff/ff_graph_theory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 5a614d9..3b90e78 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -602,6 +602,8 @@ def pfo_algorithm(graph, verbose=False):
     """
     # index nodes by position, as in the adjacency matrix
     graph = nx.convert_node_labels_to_integers(graph)
+    # a loop is in no matching and on no face of the embedding
+    graph.remove_edges_from(list(nx.selfloop_edges(graph)))
 
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
-- 
2.43.0


From ab89c493c019abb4f467c31be5fdc078ead0b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 17/25] fix: Pfaffian, hafnian, permanent and determinant of
 narrow integer arrays wrapped around or raised

---
 src/ff/ff_combinatorics.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ff/ff_combinatorics.py b/src/ff/ff_combinatorics.py
index c544023..60dffee 100644
--- a/src/ff/ff_combinatorics.py
+++ b/src/ff/ff_combinatorics.py
@@ -33,6 +33,17 @@ def sgn(permutation):
     return sign
 
 
+def _exact_integers(A):
+    """Return A as an array, with integer entries as Python integers.
+
+    Products of fixed-width integers wrap around (e.g. beyond 127 for int8).
+    """
+    A = np.asarray(A)
+    if A.dtype.kind in "iu":
+        A = A.astype(object)
+    return A
+
+
 def pf(A):
     r"""Computes pfaffian via combinatorial formula:
 
@@ -51,8 +62,7 @@ def pf(A):
     Returns:
         Pfaffian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.array(A)
+    A = _exact_integers(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -91,8 +101,7 @@ def hf(A):
     Returns:
         Hafnian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.asarray(A)
+    A = _exact_integers(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -130,7 +139,7 @@ def pt(A):
     Returns:
         Permanent value (complex or real)
     """
-    A = np.asarray(A)
+    A = _exact_integers(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
@@ -162,7 +171,7 @@ def dt(A):
     Returns:
         Determinant value (complex or real)
     """
-    A = np.asarray(A)
+    A = _exact_integers(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
-- 
2.43.0


From 3fb229d1d241f68328b8a1b77fe5a0af81270230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 18/25] fix: rotating or lifting real or integer operators with
 other coefficients raised a casting error

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6259e2f..f017cfe 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,8 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        # initialize jth rotated operator
+        b_j = np.zeros_like(alphas[0], dtype=np.result_type(C, *alphas))
 
         if verbose:
             print("\nj", j, "\n----")
@@ -775,7 +776,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas))
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0


From 8250c0f6f14ca98d3dcf8f36509c88b9caf0b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 19/25] fix: H and V builders gave wrong or no result for
 unsigned and boolean blocks

---
 src/ff/ff_lib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index f017cfe..4286d0a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -366,6 +366,9 @@ def build_V(n_sites, A, Z=None):
     """
     if Z is None:
         Z = np.zeros_like(A)
+    # unsigned or boolean entries have no negative
+    A = np.asarray(A, dtype=complex)
+    Z = np.asarray(Z, dtype=complex)
 
     V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
 
@@ -401,6 +404,9 @@ def build_H(n_sites, A, B=None):
     """
     if B is None:
         B = np.zeros_like(A)
+    # unsigned or boolean entries have no negative
+    A = np.asarray(A, dtype=complex)
+    B = np.asarray(B, dtype=complex)
 
     N = n_sites
     H = np.zeros((2 * N, 2 * N), dtype=complex)
-- 
2.43.0


From 9dbc3a3f05b94b2147e7ab1296f50462217d0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 20/25] fix: symplectic and canonical-form predicates accepted
 other matrices of narrow integers

---
 src/ff/ff_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 4286d0a..ead18d7 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -656,6 +656,8 @@ def is_symp(U):
     Returns:
         True if U is symplectic, False otherwise
     """
+    # sums and products of fixed-width integers would wrap around
+    U = np.asarray(U, dtype=complex)
     n_sites = U.shape[0] // 2
 
     aa = U[:n_sites, :n_sites]
@@ -690,6 +692,8 @@ def check_canonical_form(L):
     Returns:
         True if the matrix is in standard block diagonal form, False otherwise
     """
+    # negation of unsigned entries would wrap around
+    L = np.asarray(L, dtype=complex)
     n = L.shape[0] / 2
 
     if n != int(n):
-- 
2.43.0


From ac6ac6468c390deb004da06ddf768401c9fadd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 21/25] fix: Gaussian states of parents stored as unsigned
 integers or booleans were wrong or raised

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index ead18d7..bc3f968 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -761,7 +761,7 @@ def generate_gaussian_state(n_sites, H, alphas=None):
         )
         return 0
 
-    rho = expm(-H_op)
+    rho = expm(-1.0 * H_op)
 
     return rho / np.trace(rho)
 
-- 
2.43.0


From 42e6216a50f6c708dafc7838c060d4886f46d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 22/25] fix: rotate_operators silently truncated coefficient
 matrices with one matching dimension

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index bc3f968..0149ef5 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -282,7 +282,7 @@ def rotate_operators(C, alphas, Left=False, verbose=False):
 
     # Validate dimensions
     n = len(alphas)
-    if C.shape[0] != n and C.shape[1] != n:
+    if C.shape[0] != n or C.shape[1] != n:
         print("dimensions are incompatible")
         if not (C.shape[0] > n and C.shape[1] > n):
             return 0
-- 
2.43.0


From 50f21131a369fd6a6033f9b468c9322b8b83cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 23/25] fix: conjugation=False and 0 mean no conjugation in
 compute_2corr_matrix

Only True or a positive value is documented to conjugate the second
operator; False did so too.
---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 0149ef5..59a334e 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -890,7 +890,7 @@ def compute_2corr_matrix(rho, n_sites, alphas=None, conjugation=None):
     G = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-            if conjugation is None:
+            if not conjugation:
                 G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])
             elif int(conjugation) < 0:
                 G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])
-- 
2.43.0


From 6d60ec3077798cb4b46924c5b31a7e7cb7e662cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 24/25] fix: a rectangular parent yields no Gaussian state

generate_gaussian_state compared only the row count, so a 2n x m parent with
m > 2n was truncated to a square one and gave a state.
---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 59a334e..bff3844 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -743,10 +743,10 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
 
-    if H.shape[0] == 2 * n_sites:
+    if H.shape == (2 * n_sites, 2 * n_sites):
         H_op = build_op(n_sites, H, alphas)
 
-    elif H.shape[0] == 2**n_sites:
+    elif H.shape == (2**n_sites, 2**n_sites):
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From f0823e60a4908419775611b021012cf1e538ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 25/25] fix: clean() sets real values below the threshold to
 zero

Real arrays and numbers were only rounded to the nearest power of ten, so
with a threshold that is not one (0.3, say) values below it were kept.
---
 src/ff/ff_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 3aca76f..ba6ce3c 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -98,7 +98,7 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
+                return _round_off(obj.real, ndigits, threshold)
         # Round the array and set small values to zero
         obj = np.round(obj, ndigits)
         obj[np.abs(obj) < threshold] = 0
@@ -115,12 +115,12 @@ def clean(obj, threshold=1e-6):
             return obj
 
     elif isinstance(obj, (int, float)):
-        return np.round(obj, ndigits)
+        return _round_off(obj, ndigits, threshold)
 
     elif isinstance(obj, complex):
         if abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
-            return np.round(obj.real, ndigits)
+            return _round_off(obj.real, ndigits, threshold)
         else:
             # If the imaginary part is significant, return the
             # complex number rounded
@@ -129,6 +129,13 @@ def clean(obj, threshold=1e-6):
         raise TypeError("Unsupported type for cleaning: {}".format(type(obj)))
 
 
+def _round_off(x, ndigits, threshold):
+    """Round real values and set those below the threshold to zero."""
+    x = np.array(np.round(x, ndigits))
+    x[np.abs(x) < threshold] = 0
+    return x[()]
+
+
 def formatted_output(obj, precision=6):
     """
     Format numerical output with specified precision.
-- 
2.43.0

