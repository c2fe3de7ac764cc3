From f1649546dd94417586ec9bb634afef28a32a7f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 01/61] fix: repr of finite fields of degree above the
 default-modulus table

---
 src/komm/_algebra/FiniteBifield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/FiniteBifield.py b/src/komm/_algebra/FiniteBifield.py
index f7dabda..bc82ae6 100644
--- a/src/komm/_algebra/FiniteBifield.py
+++ b/src/komm/_algebra/FiniteBifield.py
@@ -209,7 +209,11 @@ class FiniteBifield:
         return 2**self.degree
 
     def __repr__(self) -> str:
-        if self.modulus.value == default_primitive_polynomial(self.degree):
+        try:
+            default_modulus = default_primitive_polynomial(self.degree)
+        except ValueError:  # no default modulus for this degree
+            default_modulus = None
+        if self.modulus == default_modulus:
             args = f"{self.degree}"
         else:
             args = f"{self.degree}, modulus={self.modulus}"
-- 
2.43.0


From b5b0b576abb60f5a2648e235ff8831a344c27f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/61] fix: bits_to_int accepts an empty MSB-first list, as
 LSB-first does

---
 src/komm/_util/bit_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 06b78f3..78af09d 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -37,7 +37,7 @@ def bits_to_int(
         if bit_order == "LSB-first":
             input = np.asarray(input, dtype=np.uint8)
         elif bit_order == "MSB-first":
-            input = np.flip(input, axis=-1)
+            input = np.flip(np.asarray(input, dtype=np.uint8), axis=-1)
         else:
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
-- 
2.43.0


From 009fb937a83f74d54a9dcc9c44e323cb34cd9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/61] fix: accuracy of the Marcum Q-function for moderate and
 large arguments

The series was truncated at 100 terms, or at the first negligible term
even before the peak of the summand, e.g. marcum_q(1, 10, 10) = 1e-20.
---
 src/komm/_util/special_functions.py | 37 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..2f7fe86 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -1,4 +1,4 @@
-from math import erfc, gamma, sqrt
+from math import erfc, lgamma, log, sqrt
 from statistics import NormalDist
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 
 norm = NormalDist()
 
-gamma = np.vectorize(gamma)
+lgamma = np.vectorize(lgamma)
 
 
 def _gaussian_q(x: float) -> float:
@@ -74,20 +74,23 @@ def gaussian_q_inv(y: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
     return float(result) if np.ndim(result) == 0 else result
 
 
-def _auxiliary_p(
-    m: int, a: float, b: float, max_iter: int = 100, tol: float = 1e-16
-) -> float:
-    # Auxiliary function for the Marcum Q-function
-    # See [https://en.wikipedia.org/wiki/Marcum_Q-function].
-    ms = np.arange(m)
-    result = np.sum(np.exp(-b) * (b**ms) / gamma(ms + 1))
-    for i in range(m, max_iter):
-        ks = np.arange(i - m + 1)
-        inner_sum = np.sum(np.exp(-m * a) * ((m * a) ** ks) / gamma(ks + 1))
-        term = np.exp(-b) * (b**i) / gamma(i + 1) * (1 - inner_sum)
-        result += term
-        if abs(term) < tol:
-            break
+def _poisson_pmf(mean: float, ks: npt.NDArray[np.integer]) -> npt.NDArray[np.floating]:
+    if mean == 0.0:
+        return np.where(ks == 0, 1.0, 0.0)
+    return np.exp(ks * log(mean) - mean - lgamma(ks + 1))
+
+
+def _marcum_q(m: int, a: float, x: float) -> float:
+    # Q_{m,a}(x) = Pr[J < m + K], where J and K are independent Poisson random
+    # variables with means x^2 / 2 and a^2 / 2, respectively.
+    mean_j, mean_k = x**2 / 2, a**2 / 2
+    peak = max(mean_j, mean_k)
+    ks = np.arange(m + int(peak + 40 * sqrt(peak)) + 100)
+    pmf_j = _poisson_pmf(mean_j, ks)
+    ccdf_k = np.cumsum(_poisson_pmf(mean_k, ks)[::-1])[::-1]  # Pr[K >= k]
+    result = np.sum(pmf_j[:m])
+    for j in range(m, ks.size):
+        result += pmf_j[j] * ccdf_k[j - m + 1]
     return result
 
 
@@ -122,7 +125,7 @@ def marcum_q(
         raise ValueError("'m' must be positive")
     if not np.all(a >= 0) or not np.all(x >= 0):
         raise ValueError("'a' and 'x' must be non-negative")
-    result = np.vectorize(_auxiliary_p)(m, a**2 / (2 * m), x**2 / 2)
+    result = np.vectorize(_marcum_q, otypes=[float])(m, a, x)
     return float(result) if np.ndim(result) == 0 else result
 
 
-- 
2.43.0


From 3cb54d83c5721d12651463c53854cbcdadd48771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 04/61] fix: boxplus of two infinite L-values is infinite, not
 nan

---
 src/komm/_util/special_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 2f7fe86..931a0bb 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -163,7 +163,8 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-    p1 = np.exp(-np.abs(a + b))
-    p2 = np.exp(-np.abs(a - b))
+    with np.errstate(invalid="ignore"):  # infinities of opposite or equal signs
+        p1 = np.exp(-np.abs(np.where(a == -b, 0.0, a + b)))
+        p2 = np.exp(-np.abs(np.where(a == b, 0.0, a - b)))
     result = s + np.log1p(p1) - np.log1p(p2)
     return float(result) if np.ndim(result) == 0 else result
-- 
2.43.0


From ad42a7419d0e332f15d1f397417477a9e83ddefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/61] fix: BinaryPolynomial.coefficients ignored width=0

The syndrome of a cyclic code without redundancy had one bit per block.
---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..fdcb3af 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From eb307aa678ceaacb3ffeb3e4ff69803d88a3e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 06/61] fix: reject information sets containing n or repeated
 positions

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From 33186f58326c05db9ef75a5cedfd573d7d61e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 07/61] fix: coset structure of block codes without redundancy
 never terminated

---
 src/komm/_error_control_block/base.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..a81d54f 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -204,7 +204,7 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for j, h in enumerate(H_cols):
@@ -217,11 +217,10 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        self._cached_coset_leaders = True
-                        pbar.close()
-                        return leaders
             syndromes = next_syndromes
+        self._cached_coset_leaders = True
+        pbar.close()
+        return leaders
 
     @cache
     @abstractmethod
@@ -245,8 +244,8 @@ class BlockCode(ABC):
             delay=2.5,
             initial=1,
         )
-        while True:
-            distribution[weight] = len(syndromes)
+        distribution[weight] = len(syndromes)
+        while count < 2**m:
             next_syndromes: list[int] = []
             for s in syndromes:
                 for h in H_cols:
@@ -257,12 +256,11 @@ class BlockCode(ABC):
                     next_syndromes.append(s0)
                     count += 1
                     pbar.update()
-                    if count == 2**m:
-                        distribution[weight + 1] = len(next_syndromes)
-                        pbar.close()
-                        return distribution
             syndromes = next_syndromes
             weight += 1
+            distribution[weight] = len(syndromes)
+        pbar.close()
+        return distribution
 
     @cache
     @abstractmethod
-- 
2.43.0


From cd0b9df4a0190675edebd11552d506e3f1e95471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 08/61] fix: syndrome of non-systematic cyclic codes disagreed
 with their check matrix

Syndrome-table decoding of such codes miscorrected single errors.
---
 src/komm/_error_control_block/CyclicCode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..d200322 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -207,6 +207,9 @@ class CyclicCode(abc.BlockCode):
             See [`BlockCode.check`](/ref/BlockCode#check) for examples.
             </span>
         """
+        if not self.systematic:
+            # The remainder modulo g(X) is not the syndrome given by the check matrix.
+            return super().check(input)
 
         @blockwise(self.length)
         @vectorize
-- 
2.43.0


From e54add6a34fd354a8300c7856f49179b0230f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 09/61] fix: ReedDecoder rejected bit arrays of narrow integer
 types

---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..b76ef6a 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -48,7 +48,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
-- 
2.43.0


From 55edfcdd7a801088c35ea0039d724e0a56a5b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 10/61] fix: invariant factors of a polynomial matrix (wrong
 is_catastrophic)

The first row could be left uncleared after clearing the first column, divisibility
of the remaining entries was not enforced, and large entries overflowed.
---
 src/komm/_util/matrices.py | 61 ++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..0f5cd67 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -203,67 +203,56 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     """
     # See [McE98, Appendix B, p. 1128]
     BP = BinaryPolynomial
-    matrix = np.array(matrix, dtype=int)
+    matrix = np.array(matrix, dtype=object)
     k, n = matrix.shape
     if k > n:
         raise ValueError("number of rows cannot exceed number of columns")
+    for i, j in product(range(k), range(n)):
+        matrix[i, j] = BP(int(matrix[i, j]))
     if np.all(matrix == 0):
         return []
 
     # E1: Find entry of least size and move it to position (0,0)
     i0, j0, d0, a0 = -1, -1, np.inf, BP(0b0)
     for i, j in product(range(k), range(n)):
-        a = BP(matrix[i, j])
+        a = matrix[i, j]
         if a == 0b0:
             continue
         d = a.degree
         if d < d0:
             i0, j0, d0, a0 = i, j, d, a
-    matrix[0, :], matrix[i0, :] = matrix[i0, :].copy(), matrix[0, :].copy()
-    matrix[:, 0], matrix[:, j0] = matrix[:, j0].copy(), matrix[:, 0].copy()
+    matrix[[0, i0], :] = matrix[[i0, 0], :]
+    matrix[:, [0, j0]] = matrix[:, [j0, 0]]
 
-    # E2a
+    # E2: Clear the first row and the first column. A nonzero remainder takes the corner,
+    # decreasing its degree, and may undo what was cleared before, so repeat.
     done = False
     while not done:
         done = True
         for j in range(1, n):
-            a = BP(matrix[0, j])
-            if a == 0:
-                continue
-            q, r = divmod(a, a0)
+            q, r = divmod(matrix[0, j], a0)
+            for i in range(k):
+                matrix[i, j] = matrix[i, j] - q * matrix[i, 0]
             if r != 0:
                 a0 = r
-                for i in range(k):
-                    matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-                matrix[:, 0], matrix[:, j] = matrix[:, j].copy(), matrix[:, 0].copy()
+                matrix[:, [0, j]] = matrix[:, [j, 0]]
                 done = False
-                break
-    # E2b
-    done = False
-    while not done:
-        done = True
         for i in range(1, k):
-            a = BP(matrix[i, 0])
-            if a == 0:
-                continue
-            q, r = divmod(a, a0)
+            q, r = divmod(matrix[i, 0], a0)
+            for j in range(n):
+                matrix[i, j] = matrix[i, j] - q * matrix[0, j]
             if r != 0:
                 a0 = r
-                for j in range(n):
-                    matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
-                matrix[0, :], matrix[i, :] = matrix[i, :].copy(), matrix[0, :].copy()
+                matrix[[0, i], :] = matrix[[i, 0], :]
                 done = False
-                break
-
-    # E3a
-    for j in range(1, n):
-        q = BP(matrix[0, j]) // a0
-        for i in range(k):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-    # E3b
-    for i in range(1, k):
-        q = BP(matrix[i, 0]) // a0
-        for j in range(n):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
+        if not (np.all(matrix[0, 1:] == 0) and np.all(matrix[1:, 0] == 0)):
+            done = False
+        # E3: The corner must divide every remaining entry
+        if done:
+            for i, j in product(range(1, k), range(1, n)):
+                if matrix[i, j] % a0 != 0:
+                    matrix[0, :] = matrix[0, :] + matrix[i, :]
+                    done = False
+                    break
 
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 4a2b3d3f24528bf8de0f0417a95f98a44c79993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 11/61] fix: free distance when a light output never returns to
 the zero state

---
 src/komm/_error_control_convolutional/base.py | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/komm/_error_control_convolutional/base.py b/src/komm/_error_control_convolutional/base.py
index 9ecfff9..9e1582f 100644
--- a/src/komm/_error_control_convolutional/base.py
+++ b/src/komm/_error_control_convolutional/base.py
@@ -183,20 +183,30 @@ class ConvolutionalCode(ABC):
         Returns the *free distance* $d_\mathrm{free}$ of the code. This is equal to the minimum Hamming weight among all possible non-zero output sequences.
         """
         fsm = self.finite_state_machine()
+        weights = [[int(y).bit_count() for y in row] for row in fsm.outputs]
+        # States from which the output can remain zero forever.
+        silent = set(range(fsm.num_states))
+        while True:
+            new = {
+                s
+                for s in silent
+                for s1, w in zip(fsm.transitions[s], weights[s])
+                if w == 0 and int(s1) in silent
+            }
+            if new == silent:
+                break
+            silent = new
         heap = [(0, 0)]  # (weight, state)
-        best = [np.inf] * fsm.num_states
+        visited: set[tuple[bool, int]] = set()
         while heap:
             w, s = heappop(heap)
-            if s == 0 and w > 0:
-                return int(w)
-            for x in range(fsm.num_input_symbols):
-                s1 = fsm.transitions[s][x]
-                w1 = w + fsm.outputs[s][x].bit_count()
-                if w1 < best[s1]:
-                    best[s1] = w1
-                    heappush(heap, (w1, s1))
-                elif s1 == 0 and w1 > 0:
-                    heappush(heap, (w1, 0))
+            if w > 0 and s in silent:
+                return w
+            if (w > 0, s) in visited:
+                continue
+            visited.add((w > 0, s))
+            for s1, w1 in zip(fsm.transitions[s], weights[s]):
+                heappush(heap, (w + w1, int(s1)))
         raise RuntimeError
 
     @abstractmethod
-- 
2.43.0


From 7672437c8ba596452ed4d525626082e0db1baeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 12/61] fix: memoryless high-rate convolutional codes raised on
 construction of their matrices

---
 .../HighRateConvolutionalCode.py                             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..73636e6 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -205,12 +205,13 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
         alpha = np.fliplr(alpha)
-        A_mat = np.vstack([np.eye(σ - 1, σ, k=1, dtype=int), alpha[:, :-1]])
+        A_mat = np.eye(σ, σ, k=1, dtype=int)
+        A_mat[-1:, :] = alpha[:, :-1]
         B_mat = np.empty((n - 1, σ), dtype=int)
         for j in range(σ):
             B_mat[:, j] = beta[:, j] ^ (alpha[0, j] * beta[:, -1])
         C_mat = np.zeros((σ, n), dtype=int)
-        C_mat[-1, -1] = 1
+        C_mat[-1:, -1] = 1
         D_mat = np.hstack([np.eye(n - 1, dtype=int), beta[:, -1:]])
         return A_mat, B_mat, C_mat, D_mat
 
-- 
2.43.0


From b3c4ca2c8d0b4fd6f4d0cfaa1936eac7dded418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 13/61] fix: BCJR decoder reversed the bits within each input
 block

---
 src/komm/_error_control_decoders/BCJRDecoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index d82c526..abb4ebd 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -82,8 +82,9 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
                 final_state_distribution=self._final_state_distribution,
             )
             symbol_posteriors = self._post_process_output(symbol_posteriors)
-            lo = self._labeling.marginalize(symbol_posteriors).reshape(-1)
-            return lo
+            lo = self._labeling.marginalize(symbol_posteriors)
+            # The labeling is MSB-first, whereas the machine inputs are LSB-first.
+            return lo.reshape(-1, self._labeling.num_bits)[:, ::-1].reshape(-1)
 
         output = decode(input)
         if self.output_type == "hard":
-- 
2.43.0


From d374d371f13b7a58cf48660f55d9292e1240749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 14/61] fix: trellis algorithms with parallel transitions and
 streaming survivor

Viterbi and forward-backward confused parallel transitions; streaming Viterbi released
a bit from the old survivor of the best new state, and ignored the start state.
---
 .../_finite_state_machine/MealyMachine.py     | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..b37c79f 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -211,6 +211,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +219,22 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
@@ -249,7 +252,7 @@ class MealyMachine:
 
             metric_function: The metric function $\mathcal{Y} \times \mathcal{Z} \to \mathbb{R}$.
 
-            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
+            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$ holding the inputs along the survivor ending in each state; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
 
         Returns:
             input_hat: The most probable input sequence $\hat{x} \in \mathcal{X}^L$
@@ -260,16 +263,16 @@ class MealyMachine:
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
-
-            s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
-            input_hat[t] = self.input_edges[s0, s1]
+                        inputs[s1] = x
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
@@ -278,7 +281,10 @@ class MealyMachine:
             paths_copy = np.copy(memory["paths"])
             for s1, s0 in enumerate(choices):
                 memory["paths"][s1, :-1] = paths_copy[s0, :-1]
-                memory["paths"][s1, -1] = s1
+                memory["paths"][s1, -1] = inputs[s1]
+
+            s_star = np.argmin(new_metrics)
+            input_hat[t] = memory["paths"][s_star, 0]
 
         return input_hat
 
@@ -318,6 +324,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
+        log_branch = np.empty((L, num_states, num_input_symbols), dtype=float)
         log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
@@ -330,7 +337,10 @@ class MealyMachine:
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
                 y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                log_branch[t, s0, x] = log_input_priors[t, x] + metric_function(y, z)
+                log_gamma[t, s0, s1] = np.logaddexp(
+                    log_gamma[t, s0, s1], log_branch[t, s0, x]
+                )
 
         for t in range(0, L - 1):
             for s1 in range(num_states):
@@ -351,7 +361,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_branch[t, s0, x] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From c6c1bffaa17a639a5caf2252bef4a71d70680d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 15/61] fix: zero termination of memoryless convolutional codes

---
 .../TerminatedConvolutionalCode.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..1c4aab4 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -248,6 +248,8 @@ class ZeroTermination(TerminationStrategy):
         for _ in range(1, h + μ):
             A_pow.append((A_pow[-1] @ A_mat) % 2)
         M_info = np.vstack([B_mat @ A_pow[j] % 2 for j in range(h + μ - 1, μ - 1, -1)])
+        if μ == 0:
+            return np.zeros((M_info.shape[0], 0), dtype=int)
         M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
         return M_info @ pseudo_inverse(M_tail) % 2
 
@@ -269,8 +271,7 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[:, 0][: self.num_blocks]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +284,7 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: self.num_blocks]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From 623efc7ea5dd2d5851556788e4d49873ed666270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 16/61] fix: refuse tail-biting when no initial state closes
 the path

---
 .../TerminatedConvolutionalCode.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 1c4aab4..4ed70dd 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -293,8 +293,18 @@ class TailBiting(TerminationStrategy):
         # See [WBR01, eq. (4)].
         h = self.num_blocks
         σ = self.convolutional_code.degree
-        A_mat, _, _, _ = self.convolutional_code.state_space_representation()
-        return pseudo_inverse((matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2)
+        A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        M_mat = (matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2
+        multiplier = pseudo_inverse(M_mat)
+        # Every state reached from the zero state must be of the form x (A^h + I).
+        states = B_mat
+        for _ in range(h):
+            if np.any((states @ multiplier @ M_mat + states) % 2):
+                raise ValueError(
+                    f"tail-biting is not possible for this encoder with {h} blocks"
+                )
+            states = states @ A_mat % 2
+        return multiplier
 
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         return np.asarray(input)
-- 
2.43.0


From afb937ed342452fc5f1df4e3b86c67476530719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 17/61] fix: Tunstall code left out the last tree expansion
 when it fits exactly

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..91bd100 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # See [Say06, p. 70]
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From 10f25c8b9f902eeb9f3725f2182c098c73e8e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 18/61] fix: rate and lengths of fixed-to-variable codes given
 an unordered mapping

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..9e6b8ef 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -40,7 +40,7 @@ class FixedToVariableCode:
         self.__post_init__()
 
     def __post_init__(self) -> None:
-        domain, codomain = self.enc_mapping.keys(), self.enc_mapping.values()
+        domain, codomain = self._enc_mapping.keys(), self._enc_mapping.values()
         calX, calY = self.source_cardinality, self.target_cardinality
         k = self.source_block_size
         if not calX >= 2:
@@ -53,6 +53,8 @@ class FixedToVariableCode:
             raise ValueError("'enc_mapping': invalid domain")
         if not all(all(0 <= x < calY for x in word) for word in codomain):
             raise ValueError("'enc_mapping': invalid co-domain")
+        # Lexicographic order of the source words, as 'codewords' and 'lengths' assume
+        self._enc_mapping = dict(sorted(self._enc_mapping.items()))
 
     def __repr__(self) -> str:
         args = ", ".join([
-- 
2.43.0


From 2545d4a72421f522c7e2d20c2009d2760de16e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 19/61] fix: reject empty codewords in fixed-to-variable codes

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 9e6b8ef..6ef08db 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -51,7 +51,9 @@ class FixedToVariableCode:
             raise ValueError("'source_block_size' must be at least 1")
         if set(domain) != set(product(range(calX), repeat=k)):
             raise ValueError("'enc_mapping': invalid domain")
-        if not all(all(0 <= x < calY for x in word) for word in codomain):
+        if not all(
+            all(0 <= x < calY for x in word) and len(word) > 0 for word in codomain
+        ):
             raise ValueError("'enc_mapping': invalid co-domain")
         # Lexicographic order of the source words, as 'codewords' and 'lengths' assume
         self._enc_mapping = dict(sorted(self._enc_mapping.items()))
-- 
2.43.0


From 2dc2158d29a1359e29cc58fb3b47de6275848629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 20/61] fix: source and integer codes gave float arrays for
 empty sequences

---
 src/komm/_integer_coding/FibonacciCode.py | 2 ++
 src/komm/_integer_coding/UnaryCode.py     | 2 ++
 src/komm/_lossless_coding/util.py         | 6 +++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/komm/_integer_coding/FibonacciCode.py b/src/komm/_integer_coding/FibonacciCode.py
index 4644f29..b485e28 100644
--- a/src/komm/_integer_coding/FibonacciCode.py
+++ b/src/komm/_integer_coding/FibonacciCode.py
@@ -34,6 +34,8 @@ class FibonacciCode(abc.IntegerCode):
             array([4, 1, 3])
         """
         input = validate_integer_range(input, low=0, high=2)
+        if input.size == 0:
+            return np.array([], dtype=int)
         output: list[int] = []
         i = 0
         while i < input.size:
diff --git a/src/komm/_integer_coding/UnaryCode.py b/src/komm/_integer_coding/UnaryCode.py
index 3363e5c..bd51930 100644
--- a/src/komm/_integer_coding/UnaryCode.py
+++ b/src/komm/_integer_coding/UnaryCode.py
@@ -32,6 +32,8 @@ class UnaryCode(abc.IntegerCode):
             array([4, 1, 3])
         """
         input = validate_integer_range(input, low=0, high=2)
+        if input.size == 0:
+            return np.array([], dtype=int)
         output: list[int] = []
         i = 0
         while i < input.size:
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..a9a3674 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -89,7 +89,7 @@ def parse_fixed_length(
         for i in range(0, len(input), block_size):
             key = tuple(map(int, input[i : i + block_size]))
             output_list.extend(dictionary[key])
-        output = np.asarray(output_list)
+        output = np.asarray(output_list, dtype=int)
     except KeyError:
         raise ValueError("input contains invalid word")
     return output
@@ -109,7 +109,7 @@ def parse_prefix_free(
             i = j + 1
 
     if i == len(input):
-        return np.asarray(output)
+        return np.asarray(output, dtype=int)
     elif not allow_incomplete:
         raise ValueError("input contains invalid word")
 
@@ -117,7 +117,7 @@ def parse_prefix_free(
     for key, value in dictionary.items():
         if is_prefix_of(remainder, key):
             output.extend(value)
-            return np.asarray(output)
+            return np.asarray(output, dtype=int)
 
     raise ValueError("input contains invalid word")
 
-- 
2.43.0


From dfeb61735adfbafafabeeab0148ce5fd1446d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 21/61] fix: exact field widths in the Lempel-Ziv codes

---
 src/komm/_lossless_coding/LempelZiv77Code.py    |  9 ++++-----
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  9 +++++++++
 5 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..de922ea 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,10 @@
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int, int]
 
@@ -84,9 +83,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..33dd42b 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = ceil_log(i + 1, calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = ceil_log(len(tokens) + 1, calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..15c7b41 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..6639e78 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = ceil_log(calX, calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = ceil_log(len(dictionary) + 1, calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index a9a3674..8b0b916 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -193,3 +193,12 @@ def symbols_to_integer(symbols: npt.ArrayLike, base: int) -> int:
         # accumulator, which must remain an arbitrary-precision Python int.
         integer = integer * base + int(symbol)
     return integer
+
+
+def ceil_log(n: int, base: int) -> int:
+    # Exact, unlike ceil(log(n, base)), e.g., for n = 125 and base = 5.
+    width, power = 0, 1
+    while power < n:
+        power *= base
+        width += 1
+    return width
-- 
2.43.0


From 8a6d1064f8e9a544587c33899b6d490b0ac8a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 22/61] fix: LZ77 and LZSS failed on source symbols above 255

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 4 ++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index de922ea..b0c5e6d 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -104,7 +104,7 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -116,7 +116,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, buffer[i + l]))
+            tokens.append((p, l, ord(buffer[i + l])))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 15c7b41..830395b 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -121,7 +121,7 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -138,7 +138,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, buffer[i]))
+                tokens.append((0, ord(buffer[i])))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From 834211bf6b2ab3ac59f208a200f4d04d37a68f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 23/61] fix: bits_to_int of empty arrays and of rows wider than
 64 bits

---
 src/komm/_util/bit_operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 78af09d..f6109d9 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -1,4 +1,3 @@
-from functools import partial
 from typing import Literal, cast
 
 import numpy as np
@@ -42,7 +41,12 @@ def bits_to_int(
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
         return int.from_bytes(packed, byteorder="little")
-    return np.apply_along_axis(partial(bits_to_int, bit_order=bit_order), -1, input)
+    input = np.asarray(input)
+    if input.ndim == 0:
+        raise ValueError("'input' must be at least 1-dimensional")
+    shape = input.shape[:-1]
+    ints = [bits_to_int(input[i], bit_order=bit_order) for i in np.ndindex(shape)]
+    return np.array(ints, dtype=None if ints else int).reshape(shape)
 
 
 def int_to_bits(
-- 
2.43.0


From 375eb690134030853176ca866f89f7ba4c2a433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 24/61] fix: labelings convert empty bit arrays

---
 src/komm/_labelings/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 8013741..3b800ac 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -80,11 +80,11 @@ class Labeling(ABC):
             )
         if not np.all(np.isin(bits, [0, 1])):
             raise ValueError("elements of 'bits' must be either 0 or 1")
-        indices = np.apply_along_axis(
-            func1d=lambda row: self.inverse_mapping[tuple(row)],
-            axis=-1,
-            arr=bits.reshape(*bits.shape[:-1], -1, m),
-        ).reshape(*bits.shape[:-1], -1)
+        blocks = bits.reshape(-1, m)
+        indices = np.array(
+            [self.inverse_mapping[tuple(block)] for block in blocks.tolist()],
+            dtype=int,
+        ).reshape(*bits.shape[:-1], bits.shape[-1] // m)
         return indices
 
     @abstractmethod
-- 
2.43.0


From e75b297b33c1914ccc5fff2ea83302ab1974f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 25/61] fix: PAM and ASK detection of points beyond the integer
 range

---
 src/komm/_constellations/ASKConstellation.py | 4 ++--
 src/komm/_constellations/PAMConstellation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..a931daf 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,8 +166,8 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.round(normalized)
+        indices = np.clip(indices, 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..b5d0d92 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,8 +152,8 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.round(normalized + (M - 1) / 2)
+        indices = np.clip(indices, 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
-- 
2.43.0


From 6fe49ff4a9ebe85978c657bd3f0533e6a3954059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 26/61] fix: mean of PSK rings with a single symbol

---
 src/komm/_constellations/APSKConstellation.py | 2 +-
 src/komm/_constellations/PSKConstellation.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..aa86c6f 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -131,7 +131,7 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and 1 not in self._orders:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..bb0a884 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -106,7 +106,7 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and self._order > 1:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
-- 
2.43.0


From 75c0b7324386f8deafa20bdfa5dccc96b12c8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 27/61] fix: PSK symbols of small amplitude lost precision

---
 src/komm/_constellations/PSKConstellation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index bb0a884..7f632dd 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -68,9 +68,9 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._amplitude, self._phase_offset
         i = np.arange(M).reshape(-1, 1)
-        matrix = A * np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
+        matrix = np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
         # We round to avoid sin(pi) != 0, and add 0.0 to avoid -0.0.
-        return matrix.round(15) + 0.0
+        return A * matrix.round(15) + 0.0
 
     @property
     def order(self) -> int:
-- 
2.43.0


From a27c5bb6ae7f6de37ed0354e5ba82cfd5822cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 28/61] fix: minimum distance of QAM with a single level on one
 axis

---
 src/komm/_constellations/QAMConstellation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_constellations/QAMConstellation.py b/src/komm/_constellations/QAMConstellation.py
index 53e686f..68eeb54 100644
--- a/src/komm/_constellations/QAMConstellation.py
+++ b/src/komm/_constellations/QAMConstellation.py
@@ -175,7 +175,9 @@ class QAMConstellation(abc.Constellation[np.complexfloating]):
             >>> const.minimum_distance()
             2.0
         """
-        return min(self._deltas)
+        # An axis with a single level contributes no pair of symbols
+        deltas = [δ for M, δ in zip(self._orders, self._deltas) if M > 1]
+        return min(deltas, default=float("inf"))
 
     def indices_to_symbols(
         self, indices: npt.ArrayLike
-- 
2.43.0


From 4669e0165501e4a734ea12b9d35202e485ac5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 29/61] fix: BSC and BEC transmission of boolean arrays

Adding two boolean arrays is a logical or, and the erasure symbol does not
fit in a boolean array, so the outputs were wrong.
---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..74c7251 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -111,7 +111,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 2, 0, 1, 0, 2, 0])
         """
         epsilon = self.erasure_probability
-        input = np.asarray(input)
+        input = np.asarray(input, dtype=int)
         erasure_pattern = self.rng.random(input.shape) < epsilon
         output = np.copy(input)
         output[erasure_pattern] = 2
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..3f1360e 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -112,6 +112,6 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 1, 0, 1, 0, 0, 0])
         """
         p = self.crossover_probability
-        input = np.array(input)
+        input = np.array(input, dtype=int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
-- 
2.43.0


From 0680042c719af2d80b28e602d7db59dec644bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 30/61] fix: binary channels accepted input pmfs of size other
 than two

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 ++
 src/komm/_channels/BinarySymmetricChannel.py | 2 ++
 src/komm/_channels/ZChannel.py               | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 74c7251..ae4c145 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -80,6 +80,8 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             0.7942195631902467
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("'input_pmf' must have size 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         epsilon = self.erasure_probability
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 3f1360e..7b45ffd 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -80,6 +80,8 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             0.2754734936803773
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("'input_pmf' must have size 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.crossover_probability
diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index b243619..208f0ed 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -80,6 +80,8 @@ class ZChannel(abc.DiscreteMemorylessChannel):
             0.6099865470109874
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("'input_pmf' must have size 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.decay_probability
-- 
2.43.0


From 6a33fa88e75428b89aac5d80e1ba9d3c71c535db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 31/61] fix: raised-cosine autocorrelation and root waveform
 near singular points

Within a relative distance of 1e-5 of a removable singularity the value at
the singularity itself was returned.
---
 src/komm/_pulses/RaisedCosinePulse.py | 38 ++++++++-------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/komm/_pulses/RaisedCosinePulse.py b/src/komm/_pulses/RaisedCosinePulse.py
index 09a27d3..9ea59c6 100644
--- a/src/komm/_pulses/RaisedCosinePulse.py
+++ b/src/komm/_pulses/RaisedCosinePulse.py
@@ -119,17 +119,12 @@ class RaisedCosinePulse(abc.Pulse):
         """
         α = self.rolloff
         tau = np.asarray(tau, dtype=float)
-        scalar_input = tau.ndim == 0
-        tau = np.atleast_1d(tau)
         if α == 0:
-            result = np.sinc(tau)
-            return result[0] if scalar_input else result
-        with np.errstate(divide="ignore", invalid="ignore"):
-            term = np.sinc(α * tau) * np.cos(np.pi * tau) / (1 - (α * tau) ** 2)
-        singularity = np.isclose(np.abs(tau), 1 / α)
-        term[singularity] = np.cos(np.pi / α) / 2
-        result = raised_cosine(tau, α) - α / 4 * term
-        return result[0] if scalar_input else result
+            return np.sinc(tau)
+        # sinc(x) / (1 - x^2) written without its removable singularities.
+        x = α * tau
+        term = np.sinc(x) + 0.5 * (np.sinc(x - 1) + np.sinc(x + 1))
+        return raised_cosine(tau, α) - α / 4 * term * np.cos(np.pi * tau)
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
@@ -204,21 +199,10 @@ class _RootRaisedCosinePulse(RootPulse[RaisedCosinePulse]):
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         α = self.base_pulse.rolloff
         t = np.asarray(t, dtype=float)
-        scalar_input = t.ndim == 0
-        t = np.atleast_1d(t)
         if α == 0:
-            result = np.sinc(t)
-            return result[0] if scalar_input else result
-        f1 = (1 - α) / 2
-        f2 = (1 + α) / 2
-        num = np.sin(2 * np.pi * f1 * t) + 4 * α * t * np.cos(2 * np.pi * f2 * t)
-        den = np.pi * t * (1 - (4 * α * t) ** 2)
-        with np.errstate(divide="ignore", invalid="ignore"):
-            waveform = num / den
-        singularity = np.isclose(t, 0)
-        waveform[singularity] = 1 + α * (4 / np.pi - 1)
-        singularity = np.isclose(np.abs(t), 1 / (4 * α))
-        lhs = (1 + 2 / np.pi) * np.sin(np.pi / (4 * α))
-        rhs = (1 - 2 / np.pi) * np.cos(np.pi / (4 * α))
-        waveform[singularity] = α / np.sqrt(2) * (lhs + rhs)
-        return waveform[0] if scalar_input else waveform
+            return np.sinc(t)
+        # Closed form without removable singularities, equivalent to the one documented.
+        return (1 - α) * np.sinc((1 - α) * t) + α * (
+            np.sinc(α * t + 0.25) * np.cos(np.pi * (t + 0.25))
+            + np.sinc(α * t - 0.25) * np.cos(np.pi * (t - 0.25))
+        )
-- 
2.43.0


From ee671c9bde8bf15bb45f323594d529706aac351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 32/61] fix: quantizer MSE over an input range inside the
 thresholds

Cells outside the range were integrated (some of them backwards), which
could even give a negative mean squared error.
---
 src/komm/_quantization/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_quantization/base.py b/src/komm/_quantization/base.py
index 52f18c9..52c8100 100644
--- a/src/komm/_quantization/base.py
+++ b/src/komm/_quantization/base.py
@@ -75,7 +75,8 @@ class ScalarQuantizer(ABC):
         """
         # See [Say06, eq. (9.3)].
         x_min, x_max = input_range
-        λ = np.concatenate(([x_min], self.thresholds, [x_max]))
+        thresholds = np.clip(self.thresholds, x_min, x_max)
+        λ = np.concatenate(([x_min], thresholds, [x_max]))
         mse = 0.0
         for i, level in enumerate(self.levels):
             x = np.linspace(λ[i], λ[i + 1], num=points_per_interval, dtype=float)
-- 
2.43.0


From 614894fa37bbafd482adad52244edf409e7ae7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 33/61] fix: Lloyd-Max convergence test relative to the input
 range

With the default tolerances of allclose, iterations stopped at once for
small ranges and for ranges far from the origin.
---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..ba5f48b 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old):
+        if np.allclose(y, y_old, rtol=0.0, atol=1e-6 * (x_max - x_min)):
             break
 
     return y, λ[1:-1]
-- 
2.43.0


From d85578bb0716aec9109c3ec86ea5bacc76a2701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 34/61] fix: phases of long Zadoff-Chu sequences lost precision

---
 src/komm/_sequences_complex/sequences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_sequences_complex/sequences.py b/src/komm/_sequences_complex/sequences.py
index bbd03de..7cd420b 100644
--- a/src/komm/_sequences_complex/sequences.py
+++ b/src/komm/_sequences_complex/sequences.py
@@ -6,4 +6,6 @@ def zadoff_chu_sequence(
     length: int, root_index: int
 ) -> npt.NDArray[np.complexfloating]:
     n = np.arange(length)
-    return np.exp(-1j * np.pi * root_index * n * (n + 1) / length)
+    # Reduce the phase modulo 2π in integer arithmetic to keep it accurate.
+    k = root_index * (n * (n + 1) % (2 * length)) % (2 * length)
+    return np.exp(-1j * np.pi * k / length)
-- 
2.43.0


From 0c3de3112bd338b36a960c6d5720efc2b654f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 35/61] fix: state order of the fundamental matrix and
 absorption probabilities

The iteration order of a set is not increasing once states exceed its
hash-table size.
---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From f16cb93533610b0fbb20e4a9477cbc6f307aa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 36/61] fix: autocorrelations of narrow and unsigned integer
 sequences and shifts wrapped around

---
 src/komm/_util/sequences.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..f4fac7f 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -8,6 +8,12 @@ from ..types import Array1D
 DType = TypeVar("DType", bound=np.floating | np.complexfloating)
 
 
+def _asarray(x: npt.ArrayLike) -> npt.NDArray[np.number]:
+    # Narrow and unsigned integers would wrap around in products and negations.
+    x = np.asarray(x)
+    return x.astype(int) if x.dtype.kind in "biu" else x
+
+
 def autocorrelation(
     sequence: npt.ArrayLike,
     shifts: npt.ArrayLike | None = None,
@@ -34,9 +40,9 @@ def autocorrelation(
         >>> komm.autocorrelation([1.0, 2.0, 3.0, 4.0], shifts=[-2, -1, 0, 1, 2])
         array([11., 20., 30., 20., 11.])
     """
-    sequence = np.asarray(sequence)
+    sequence = _asarray(sequence)
     seq_conj = np.conj(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    shifts = np.arange(sequence.size) if shifts is None else _asarray(shifts)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
     for i, ℓ in enumerate(shifts):
         if ℓ < 0:
@@ -75,8 +81,8 @@ def cyclic_autocorrelation(
         >>> komm.cyclic_autocorrelation([1.0, 2.0, 3.0, 4.0], shifts=[-2, -1, 0, 1, 2])
         array([22., 24., 30., 24., 22.])
     """
-    sequence = np.asarray(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    sequence = _asarray(sequence)
+    shifts = np.arange(sequence.size) if shifts is None else _asarray(shifts)
     acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
     energy = np.dot(sequence, sequence.conj())
     return acorr / energy if normalized else acorr
-- 
2.43.0


From 48aeb6f39b0ac64747a8fa4c4e9a87e67b0662e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 37/61] fix: block operations on unsigned words returned floats
 or raised

---
 src/komm/_util/decorators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_util/decorators.py b/src/komm/_util/decorators.py
index e59b533..2b27c13 100644
--- a/src/komm/_util/decorators.py
+++ b/src/komm/_util/decorators.py
@@ -34,6 +34,8 @@ def blockwise(block_size: int):
         @wraps(func)
         def wrapper(arr: npt.ArrayLike):
             arr = np.asarray(arr)
+            if arr.dtype.kind == "u":
+                arr = arr.astype(int)
             if arr.shape[-1] % block_size != 0:
                 raise ValueError(
                     "last dimension of array must be a multiple of block size"
-- 
2.43.0


From 65ac8d2a062b57e04b604439120b67ad4e5025e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 38/61] fix: biorthogonal detection of unsigned integer inputs
 (negation wrapped around)

---
 src/komm/_constellations/BiorthogonalConstellation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_constellations/BiorthogonalConstellation.py b/src/komm/_constellations/BiorthogonalConstellation.py
index d03bd2f..2c05205 100644
--- a/src/komm/_constellations/BiorthogonalConstellation.py
+++ b/src/komm/_constellations/BiorthogonalConstellation.py
@@ -166,7 +166,7 @@ class BiorthogonalConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         N = M // 2
-        received = np.asarray(received)
+        received = np.asarray(received, dtype=float)
         r = received.reshape(-1, N)
         scores = np.concatenate([r, -r], axis=-1)
         indices = np.argmax(scores, axis=-1)
-- 
2.43.0


From b4616b3cc05e97e29dce139d867f9283db1c06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 39/61] fix: reject labeling matrices with fractional entries

---
 src/komm/_labelings/Labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_labelings/Labeling.py b/src/komm/_labelings/Labeling.py
index 6ec3957..32840e7 100644
--- a/src/komm/_labelings/Labeling.py
+++ b/src/komm/_labelings/Labeling.py
@@ -19,7 +19,7 @@ class Labeling(abc.Labeling):
         M, m = matrix.shape
         if M != 2**m:
             raise ValueError(f"shape of 'matrix' must be (2**m, m) (got ({M}, {m}))")
-        if np.any(matrix < 0) or np.any(matrix > 1):
+        if not np.all(np.isin(matrix, [0, 1])):
             raise ValueError("elements of 'matrix' must be either 0 or 1")
         if len(set(tuple(row) for row in matrix)) != M:
             raise ValueError("rows of 'matrix' must be distinct")
-- 
2.43.0


From e654ebb6d7a5577a3e8f53b07f51daf18da95eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 40/61] fix: box-plus of unsigned or narrow integer inputs
 (differences wrapped around)

---
 src/komm/_util/special_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 931a0bb..095ee4b 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -158,8 +158,8 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
         >>> komm.boxplus([0, 1, 2], [1, -1, -1])
         array([ 0.        , -0.43378083, -0.73532566])
     """
-    a = np.asarray(a)
-    b = np.asarray(b)
+    a = np.asarray(a, dtype=float)
+    b = np.asarray(b, dtype=float)
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-- 
2.43.0


From 5ccbe49c9b26807f511f87fed27521b63ccd5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 41/61] fix: entropies and mutual information of subnormal
 probabilities (1/p overflowed)

---
 src/komm/_util/information_theory.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index d185a7d..a7a26ce 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -42,13 +42,14 @@ def entropy(pmf: npt.ArrayLike, base: float | Literal["e"] = 2.0) -> float:
     pmf = validate_pmf(pmf)
     validate_log_base(base)
     pmf = pmf[pmf > 0]
-    # We compute log(1/p) rather than -log(p) to avoid -0.0.
+    # We compute 0 - log(p) rather than -log(p) to avoid -0.0, and rather than
+    # log(1/p) since 1/p overflows for subnormal p.
     if base == "e":
-        log_recip_pmf = np.log(1 / pmf)
+        log_recip_pmf = 0.0 - np.log(pmf)
     elif base == 2.0:
-        log_recip_pmf = np.log2(1 / pmf)
+        log_recip_pmf = 0.0 - np.log2(pmf)
     else:
-        log_recip_pmf = np.log(1 / pmf) / np.log(base)
+        log_recip_pmf = (0.0 - np.log(pmf)) / np.log(base)
     return float(np.dot(pmf, log_recip_pmf))
 
 
@@ -149,11 +150,11 @@ def relative_entropy(
     pmf, qmf = pmf[mask], qmf[mask]
     with np.errstate(divide="ignore"):
         if base == "e":
-            log_quotient = np.log(pmf / qmf)
+            log_quotient = np.log(pmf) - np.log(qmf)
         elif base == 2.0:
-            log_quotient = np.log2(pmf / qmf)
+            log_quotient = np.log2(pmf) - np.log2(qmf)
         else:
-            log_quotient = np.log(pmf / qmf) / np.log(base)
+            log_quotient = (np.log(pmf) - np.log(qmf)) / np.log(base)
     return float(np.dot(pmf, log_quotient))
 
 
-- 
2.43.0


From 890a744f0bbbb3b327fd84d81333ab4ab6636a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 42/61] fix: nonnegative, accurate stationary distributions of
 Markov chains

Least squares gave negative components (and components without any correct
digit) for chains whose stationary probabilities have a wide range, such as
birth-death chains of a dozen states; the result was then not a pmf.
---
 src/komm/_sources/MarkovChain.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index b08bf4b..edb33f2 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -237,9 +237,16 @@ class MarkovChain:
                 "method is only implemented for irreducible chains"
             )
         P, n = self.transition_matrix, self.num_states
-        A = np.hstack((P - np.eye(n), np.ones((n, 1))))
-        b = np.concatenate((np.zeros(n), [1]))
-        pi, *_ = np.linalg.lstsq(A.T, b, rcond=None)
+        # Grassmann-Taksar-Heyman elimination: no subtractions, so that no
+        # component comes out negative or loses its relative accuracy.
+        A = P.astype(float)
+        for k in range(n - 1, 0, -1):
+            A[:k, k] /= A[k, :k].sum()
+            A[:k, :k] += np.outer(A[:k, k], A[k, :k])
+        pi = np.ones(n)
+        for k in range(1, n):
+            pi[k] = pi[:k] @ A[:k, k]
+            pi[: k + 1] /= pi[: k + 1].sum()
         return pi
 
     @cache
-- 
2.43.0


From 0a371afcf286e617514ef85ed519dcb49499a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 43/61] fix: stationary distributions of chains with extremely
 small probabilities

The elimination divided by the exit probability before normalising, which
overflowed when that probability was close to the smallest float.
---
 src/komm/_sources/MarkovChain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index edb33f2..0b6051d 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -240,13 +240,15 @@ class MarkovChain:
         # Grassmann-Taksar-Heyman elimination: no subtractions, so that no
         # component comes out negative or loses its relative accuracy.
         A = P.astype(float)
+        exit = np.ones(n)
         for k in range(n - 1, 0, -1):
-            A[:k, k] /= A[k, :k].sum()
-            A[:k, :k] += np.outer(A[:k, k], A[k, :k])
+            exit[k] = A[k, :k].sum()
+            A[:k, :k] += np.outer(A[:k, k], A[k, :k] / exit[k])
         pi = np.ones(n)
         for k in range(1, n):
-            pi[k] = pi[:k] @ A[:k, k]
-            pi[: k + 1] /= pi[: k + 1].sum()
+            entry = pi[:k] @ A[:k, k]
+            pi[:k] *= exit[k] / (exit[k] + entry)
+            pi[k] = entry / (exit[k] + entry)
         return pi
 
     @cache
-- 
2.43.0


From f03fb9611ad7ba7396f533c129b2e4a8b6b58dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 44/61] fix: pulse spectra and autocorrelations at the ends of
 narrow integer ranges

2 * tau and abs(f) wrapped around for integer arrays, so that for example the
raised-cosine spectrum at np.int8(-128) came out as one.
---
 src/komm/_pulses/BeaulieuPulse.py     | 2 +-
 src/komm/_pulses/ManchesterPulse.py   | 2 +-
 src/komm/_pulses/RaisedCosinePulse.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index beb30e5..745240b 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -86,7 +86,7 @@ class BeaulieuPulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         β = 2 * np.log(2) / α
diff --git a/src/komm/_pulses/ManchesterPulse.py b/src/komm/_pulses/ManchesterPulse.py
index 2709246..7b13d64 100644
--- a/src/komm/_pulses/ManchesterPulse.py
+++ b/src/komm/_pulses/ManchesterPulse.py
@@ -96,7 +96,7 @@ class ManchesterPulse(abc.Pulse):
             ... )
             array([ 0.  , -0.25, -0.5 ,  0.25,  1.  ,  0.25, -0.5 , -0.25,  0.  ])
         """
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         return tri(2 * tau) - 0.5 * tri(2 * (tau - 0.5)) - 0.5 * tri(2 * (tau + 0.5))
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
diff --git a/src/komm/_pulses/RaisedCosinePulse.py b/src/komm/_pulses/RaisedCosinePulse.py
index 9ea59c6..c9ad9a0 100644
--- a/src/komm/_pulses/RaisedCosinePulse.py
+++ b/src/komm/_pulses/RaisedCosinePulse.py
@@ -76,7 +76,7 @@ class RaisedCosinePulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         f1 = (1 - α) / 2
-- 
2.43.0


From 714ff275910be96cefb40276bd38083c009c20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 45/61] fix: weight distributions of block codes given by
 unsigned or floating-point matrices raised

---
 src/komm/_error_control_block/BlockCode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_block/BlockCode.py b/src/komm/_error_control_block/BlockCode.py
index 4edea20..e0e6606 100644
--- a/src/komm/_error_control_block/BlockCode.py
+++ b/src/komm/_error_control_block/BlockCode.py
@@ -64,13 +64,13 @@ class BlockCode(abc.BlockCode):
                 "only one of 'generator_matrix' or 'check_matrix' must be provided"
             )
         if generator_matrix is not None:
-            self._generator_matrix = np.asarray(generator_matrix)
+            self._generator_matrix = np.asarray(generator_matrix, dtype=int)
             self._check_matrix = None
             self._dimension, self._length = self._generator_matrix.shape
             self._redundancy = self._length - self._dimension
         else:  # check_matrix is not None
             self._generator_matrix = None
-            self._check_matrix = np.asarray(check_matrix)
+            self._check_matrix = np.asarray(check_matrix, dtype=int)
             self._redundancy, self._length = self._check_matrix.shape
             self._dimension = self._length - self._redundancy
 
-- 
2.43.0


From 57d2c16e0b611ae9016de94cd576a1fc87470c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 46/61] fix: representation of product labelings did not
 reconstruct them

---
 src/komm/_labelings/ProductLabeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_labelings/ProductLabeling.py b/src/komm/_labelings/ProductLabeling.py
index 6711f74..23d3e2d 100644
--- a/src/komm/_labelings/ProductLabeling.py
+++ b/src/komm/_labelings/ProductLabeling.py
@@ -121,7 +121,8 @@ class ProductLabeling(abc.Labeling):
         return cls(*labelings, repeat=repeat)
 
     def __repr__(self) -> str:
-        return f"{self.__class__.__name__}({self._labelings})"
+        args = ", ".join(map(repr, self._labelings))
+        return f"{self.__class__.__name__}({args})"
 
     @property
     @cache
-- 
2.43.0


From bbc3ef40f3e1a6b4d687232e327895caabb9534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 47/61] fix: cyclic codes given by both polynomials were
 accepted and left unusable

---
 src/komm/_error_control_block/CyclicCode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index d200322..5f8e856 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -60,6 +60,11 @@ class CyclicCode(abc.BlockCode):
             raise ValueError(
                 "either 'generator_polynomial' or 'check_polynomial' must be provided"
             )
+        if generator_polynomial is not None and check_polynomial is not None:
+            raise ValueError(
+                "only one of 'generator_polynomial' or 'check_polynomial' must be"
+                " provided"
+            )
         modulus = BinaryPolynomial.from_exponents([0, self.length])
         if generator_polynomial is not None and check_polynomial is None:
             self.generator_polynomial = BinaryPolynomial(generator_polynomial)
-- 
2.43.0


From 13711fbc5abe964d11bd8282b35217f369d5dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 48/61] fix: representation of Zadoff-Chu sequences named
 parameters they do not have

---
 src/komm/_sequences_complex/ZadoffChuSequence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_sequences_complex/ZadoffChuSequence.py b/src/komm/_sequences_complex/ZadoffChuSequence.py
index 070f7ba..c4e4460 100644
--- a/src/komm/_sequences_complex/ZadoffChuSequence.py
+++ b/src/komm/_sequences_complex/ZadoffChuSequence.py
@@ -49,4 +49,9 @@ class ZadoffChuSequence(ComplexSequence):
             raise ValueError("'length' must be an odd integer")
         if not 1 <= root_index < length:
             raise ValueError("'root_index' must be in [1 : length)")
+        self._root_index = root_index
         super().__init__(sequence=zadoff_chu_sequence(length, root_index))
+
+    def __repr__(self) -> str:
+        args = f"length={self.length}, root_index={self._root_index}"
+        return f"{self.__class__.__name__}({args})"
-- 
2.43.0


From 327733286dd4c1e693df90a7f076516f57abd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 49/61] fix: representation of Lempel-Ziv coders left out their
 search buffer

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 2 ++
 src/komm/_lossless_coding/LempelZivSSCode.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index b0c5e6d..f2fea00 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -72,6 +72,8 @@ class LempelZiv77Code:
             f"source_cardinality={self.source_cardinality}",
             f"target_cardinality={self.target_cardinality}",
         ])
+        if any(self.search_buffer):
+            args += f", search_buffer={self.search_buffer}"
         return f"{self.__class__.__name__}({args})"
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 830395b..67b6f1f 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -74,6 +74,8 @@ class LempelZivSSCode:
             f"source_cardinality={self.source_cardinality}",
             f"target_cardinality={self.target_cardinality}",
         ])
+        if any(self.search_buffer):
+            args += f", search_buffer={self.search_buffer}"
         return f"{self.__class__.__name__}({args})"
 
     @property
-- 
2.43.0


From 89ffb3e9320de6c4893d99f72bdf45f7662c4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:40 +0000
Subject: [PATCH 50/61] fix: rectangular pulses of widths outside (0, 1] were
 accepted

---
 src/komm/_pulses/RectangularPulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 3520e2f..072d6b5 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -42,6 +42,10 @@ class RectangularPulse(abc.Pulse):
 
     width: float = 1.0
 
+    def __post_init__(self) -> None:
+        if not 0 < self.width <= 1:
+            raise ValueError("'width' must satisfy 0 < width <= 1")
+
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
         For the rectangular pulse, it is given by
-- 
2.43.0


From aa26a06da35e5685060dffcaa1759e24e0020295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:40 +0000
Subject: [PATCH 51/61] fix: Lloyd-Max quantizers of a single level were
 accepted

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index ba5f48b..c6ecaf7 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -49,6 +49,8 @@ class LloydMaxQuantizer(abc.ScalarQuantizer):
     num_levels: int
 
     def __post_init__(self) -> None:
+        if not self.num_levels > 1:
+            raise ValueError("'num_levels' must be greater than 1")
         self._levels, self._thresholds = lloyd_max_quantizer(
             self.input_pdf,
             self.num_levels,
-- 
2.43.0


From f8653699202f6e31ba95d3e2396b8bbf4afa708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 52/61] fix: extended Euclidean algorithm exceeded the
 recursion limit for polynomials of large degree

---
 src/komm/_algebra/domain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/komm/_algebra/domain.py b/src/komm/_algebra/domain.py
index d610dab..e787f61 100644
--- a/src/komm/_algebra/domain.py
+++ b/src/komm/_algebra/domain.py
@@ -49,11 +49,14 @@ def xgcd(x: T, y: T) -> tuple[T, T, T]:
     """
     zero: T = x.ambient.zero
     one: T = x.ambient.one
-    if x == zero:
-        return y, zero, one
-    else:
-        d, s, t = xgcd(y % x, x)
-        return d, t - s * (y // x), s
+    s0, s1 = zero, one
+    t0, t1 = one, zero
+    while x != zero:
+        q, r = y // x, y % x
+        x, y = r, x
+        s0, s1 = s1, s0 - q * s1
+        t0, t1 = t1, t0 - q * t1
+    return y, s0, t0
 
 
 def lcm(x: T, y: T) -> T:
-- 
2.43.0


From bcd046e93f454f831e1b91e4a7a7388bf4c392d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 53/61] fix: weight distributions of long repetition and single
 parity-check codes overflowed

---
 src/komm/_error_control_block/RepetitionCode.py        | 3 ++-
 src/komm/_error_control_block/SingleParityCheckCode.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_block/RepetitionCode.py b/src/komm/_error_control_block/RepetitionCode.py
index 5ed22e6..f9465b1 100644
--- a/src/komm/_error_control_block/RepetitionCode.py
+++ b/src/komm/_error_control_block/RepetitionCode.py
@@ -65,7 +65,8 @@ class RepetitionCode(BlockCode):
     @cache
     def coset_leader_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        coset_leader_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if comb(n, n // 2) <= np.iinfo(int).max else object
+        coset_leader_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range((n + 1) // 2):
             coset_leader_weight_distribution[w] = comb(n, w)
         if n % 2 == 0:
diff --git a/src/komm/_error_control_block/SingleParityCheckCode.py b/src/komm/_error_control_block/SingleParityCheckCode.py
index b42f51c..fb58c4d 100644
--- a/src/komm/_error_control_block/SingleParityCheckCode.py
+++ b/src/komm/_error_control_block/SingleParityCheckCode.py
@@ -65,7 +65,8 @@ class SingleParityCheckCode(BlockCode):
     @cache
     def codeword_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        codeword_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if comb(n, n // 2) <= np.iinfo(int).max else object
+        codeword_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range(0, n + 1, 2):
             codeword_weight_distribution[w] = comb(n, w)
         return codeword_weight_distribution
-- 
2.43.0


From ee8eae17af3490b5ee64c38451dd1050d7bb0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 54/61] fix: absorbing-chain analysis lost all accuracy when
 absorption is slow

---
 src/komm/_sources/MarkovChain.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 0b6051d..a09e6a6 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -489,10 +489,22 @@ class MarkovChain:
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
         transient = sorted(self.transient_states())
-        P = self.transition_matrix
-        Q = P[np.ix_(transient, transient)]
-        I = np.eye(len(transient))
-        N = np.linalg.inv(I - Q)
+        absorbing = sorted(self.absorbing_states())
+        P, n = self.transition_matrix, len(transient)
+        # Subtraction-free Gaussian elimination on (I - Q) N = I: The diagonal
+        # of I - Q is the probability of leaving each state.
+        A = P[np.ix_(transient, transient)]
+        escape = P[np.ix_(transient, absorbing)].sum(axis=1)
+        leave = np.empty(n)
+        N = np.eye(n)
+        for k in range(n):
+            leave[k] = A[k, k + 1 :].sum() + escape[k]
+            factor = A[k + 1 :, k] / leave[k]
+            A[k + 1 :, k + 1 :] += np.outer(factor, A[k, k + 1 :])
+            escape[k + 1 :] += factor * escape[k]
+            N[k + 1 :] += np.outer(factor, N[k])
+        for k in range(n - 1, -1, -1):
+            N[k] = (N[k] + A[k, k + 1 :] @ N[k + 1 :]) / leave[k]
         return N
 
     @cache
-- 
2.43.0


From c95baad468ab2c45f90f9aab74828a97b85cf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 55/61] fix: root Beaulieu waveform far from the origin

---
 src/komm/_pulses/BeaulieuPulse.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index 745240b..50ed938 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -256,5 +256,25 @@ class _RootBeaulieuPulse(RootPulse[BeaulieuPulse]):
         # sqrt(1 - e^{-2b (f2 - f)}):
         v, w = self._quadrature
         g = 4 * w * v * np.sqrt(1 - np.exp(-2 * b * v**2))
-        band3 = np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - v**2)) @ g
+        far = α * np.abs(t) > 64
+        t_near = np.where(far, 0.0, t)
+        band3 = np.cos(2 * np.pi * t_near[..., np.newaxis] * (f2 - v**2)) @ g
+        if np.any(far):
+            band3 = np.where(far, self._far_band3(np.where(far, np.abs(t), 64 / α)), band3)
         return band1 + band2 + band3
+
+    def _far_band3(self, t: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
+        # The integrand oscillates too fast for the quadrature above. Integrate
+        # instead along the paths of steepest descent that start at the endpoints
+        # f = f2 and f = 1/2 (with a square-root singularity at the former).
+        α = self.base_pulse.rolloff
+        b = np.log(2) / α
+        f2 = (1 + α) / 2
+        ω = 2 * np.pi * t[..., np.newaxis]
+        x2, w2 = np.polynomial.hermite.hermgauss(64)
+        x0, w0 = np.polynomial.laguerre.laggauss(32)
+        end2 = np.sqrt(-np.expm1(2j * b * x2**2 / ω)) @ (w2 * np.abs(x2))
+        end0 = np.sqrt(1 - np.exp(2j * b * x0 / ω) / 2) @ w0
+        ω = ω[..., 0]
+        z = np.exp(1j * ω * f2) * end2 - np.exp(1j * ω / 2) * end0
+        return 2 * np.real(-1j / ω * z)
-- 
2.43.0


From 32db9cfb709e59c50ecbc7a9e18bd7033f5e36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:45 +0000
Subject: [PATCH 56/61] fix: saturated narrow integer L-values overflowed in
 the block decoders

---
 src/komm/_util/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_util/decorators.py b/src/komm/_util/decorators.py
index 2b27c13..90ee9c3 100644
--- a/src/komm/_util/decorators.py
+++ b/src/komm/_util/decorators.py
@@ -34,7 +34,7 @@ def blockwise(block_size: int):
         @wraps(func)
         def wrapper(arr: npt.ArrayLike):
             arr = np.asarray(arr)
-            if arr.dtype.kind == "u":
+            if arr.dtype.kind in "iu":
                 arr = arr.astype(int)
             if arr.shape[-1] % block_size != 0:
                 raise ValueError(
-- 
2.43.0


From 89972a6de2d05f9276aab936f5ab58a118a995b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 57/61] fix: sampling from pmfs that sum to one only up to
 rounding

---
 src/komm/_channels/DiscreteMemorylessChannel.py | 3 ++-
 src/komm/_sources/DiscreteMemorylessSource.py   | 3 ++-
 src/komm/_sources/MarkovChain.py                | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index 8342b92..eedba81 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -108,7 +108,8 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
         input = np.asarray(input)
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
+            pmf = self.transition_matrix[symbol]
             output[index] = self.rng.choice(
-                a=self.output_cardinality, p=self.transition_matrix[symbol]
+                a=self.output_cardinality, p=pmf / np.sum(pmf)
             )
         return output
diff --git a/src/komm/_sources/DiscreteMemorylessSource.py b/src/komm/_sources/DiscreteMemorylessSource.py
index 1992a4a..d09612f 100644
--- a/src/komm/_sources/DiscreteMemorylessSource.py
+++ b/src/komm/_sources/DiscreteMemorylessSource.py
@@ -120,4 +120,5 @@ class DiscreteMemorylessSource:
             shape = (1,)
         elif isinstance(shape, int):
             shape = (shape,)
-        return self._rng.choice(self.pmf.size, p=self.pmf, size=shape)
+        pmf = self.pmf / np.sum(self.pmf)
+        return self._rng.choice(self.pmf.size, p=pmf, size=shape)
diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index a09e6a6..8469f22 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -679,7 +679,7 @@ class MarkovChain:
         output = np.empty(steps, dtype=int)
         for t in range(steps):
             output[t] = state
-            state = self._rng.choice(self.num_states, p=P[state])
+            state = self._rng.choice(self.num_states, p=P[state] / P[state].sum())
         return output
 
     def simulate_until_absorption(self, initial_state: int) -> Array1D[np.integer]:
@@ -712,6 +712,6 @@ class MarkovChain:
         output = [state]
         transient = self._transient_states()
         while state in transient:
-            state = self._rng.choice(self.num_states, p=P[state])
+            state = self._rng.choice(self.num_states, p=P[state] / P[state].sum())
             output.append(state)
         return np.array(output)
-- 
2.43.0


From 91d7e8cb5e0dc48235ff3df279dfb75516746726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 58/61] fix: LZ77 and LZSS encoding of alphabets beyond the
 Unicode range

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 6 ++++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index f2fea00..d0d457e 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -106,7 +106,9 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
+        data = self.search_buffer + source.tolist()
+        rank = {symbol: index for index, symbol in enumerate(sorted(set(data)))}
+        buffer = "".join(chr(rank[symbol]) for symbol in data)
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -118,7 +120,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, ord(buffer[i + l])))
+            tokens.append((p, l, data[i + l]))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 67b6f1f..bee25e5 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -123,7 +123,9 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
+        data = self.search_buffer + source.tolist()
+        rank = {symbol: index for index, symbol in enumerate(sorted(set(data)))}
+        buffer = "".join(chr(rank[symbol]) for symbol in data)
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -140,7 +142,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, ord(buffer[i])))
+                tokens.append((0, data[i]))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From ddb60cf5f09519247f37ae2278740d793898d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:36 +0000
Subject: [PATCH 59/61] fix: bits_to_int of several rows of 64 bits lost
 precision

---
 src/komm/_util/bit_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index f6109d9..3a7fd67 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -46,7 +46,8 @@ def bits_to_int(
         raise ValueError("'input' must be at least 1-dimensional")
     shape = input.shape[:-1]
     ints = [bits_to_int(input[i], bit_order=bit_order) for i in np.ndindex(shape)]
-    return np.array(ints, dtype=None if ints else int).reshape(shape)
+    dtype = object if max(ints, default=0) > np.iinfo(int).max else int
+    return np.array(ints, dtype=dtype).reshape(shape)
 
 
 def int_to_bits(
-- 
2.43.0


From cfeb58d8ae202b30b071c4777be613cfc7736f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:36 +0000
Subject: [PATCH 60/61] fix: marginalize overflowed for metrics in narrow
 integer formats

---
 src/komm/_labelings/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 3b800ac..39ace6f 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -102,7 +102,7 @@ class Labeling(ABC):
             lvalues: The marginalized metrics over the bits of the labeling. Has the same shape as `metrics`, but with the last dimension changed by a factor of $m / 2^m$.
         """
         M = self.cardinality
-        metrics = np.asarray(metrics)
+        metrics = np.asarray(metrics, dtype=float)
         if metrics.shape[-1] % M != 0:
             raise ValueError(
                 "last dimension of 'metrics' must be a multiple of the cardinality"
-- 
2.43.0


From 9f4875f6586d4b97b4aa1e783d75ee4fcff7a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 61/61] fix: entries of the invariant factor algorithm growing
 without bound (is_catastrophic never returning)

---
 src/komm/_util/matrices.py | 58 ++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 0f5cd67..524b596 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -212,47 +212,37 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     if np.all(matrix == 0):
         return []
 
-    # E1: Find entry of least size and move it to position (0,0)
-    i0, j0, d0, a0 = -1, -1, np.inf, BP(0b0)
-    for i, j in product(range(k), range(n)):
-        a = matrix[i, j]
-        if a == 0b0:
-            continue
-        d = a.degree
-        if d < d0:
-            i0, j0, d0, a0 = i, j, d, a
-    matrix[[0, i0], :] = matrix[[i0, 0], :]
-    matrix[:, [0, j0]] = matrix[:, [j0, 0]]
-
-    # E2: Clear the first row and the first column. A nonzero remainder takes the corner,
-    # decreasing its degree, and may undo what was cleared before, so repeat.
-    done = False
-    while not done:
-        done = True
+    while True:
+        # E1: Find entry of least size and move it to position (0,0). Repeating this before
+        # each pass (and not only once) keeps the degrees of the other entries small.
+        i0, j0, d0 = -1, -1, np.inf
+        for i, j in product(range(k), range(n)):
+            a = matrix[i, j]
+            if a != 0b0 and a.degree < d0:
+                i0, j0, d0 = i, j, a.degree
+        matrix[[0, i0], :] = matrix[[i0, 0], :]
+        matrix[:, [0, j0]] = matrix[:, [j0, 0]]
+        a0 = matrix[0, 0]
+
+        # E2: Clear the first row and the first column. A nonzero remainder is smaller than
+        # the corner, so repeat.
         for j in range(1, n):
-            q, r = divmod(matrix[0, j], a0)
+            q = matrix[0, j] // a0
             for i in range(k):
                 matrix[i, j] = matrix[i, j] - q * matrix[i, 0]
-            if r != 0:
-                a0 = r
-                matrix[:, [0, j]] = matrix[:, [j, 0]]
-                done = False
         for i in range(1, k):
-            q, r = divmod(matrix[i, 0], a0)
+            q = matrix[i, 0] // a0
             for j in range(n):
                 matrix[i, j] = matrix[i, j] - q * matrix[0, j]
-            if r != 0:
-                a0 = r
-                matrix[[0, i], :] = matrix[[i, 0], :]
-                done = False
         if not (np.all(matrix[0, 1:] == 0) and np.all(matrix[1:, 0] == 0)):
-            done = False
+            continue
+
         # E3: The corner must divide every remaining entry
-        if done:
-            for i, j in product(range(1, k), range(1, n)):
-                if matrix[i, j] % a0 != 0:
-                    matrix[0, :] = matrix[0, :] + matrix[i, :]
-                    done = False
-                    break
+        for i, j in product(range(1, k), range(1, n)):
+            if matrix[i, j] % a0 != 0:
+                matrix[0, :] = matrix[0, :] + matrix[i, :]
+                break
+        else:
+            break
 
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0

