From b4b7549fbf799216445255dbacd645a47962cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 01/77] fix: shortening a classical code on a bit that is zero
 in every code word dropped an unrelated code word

---
 qldpc/codes/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..3fcceac 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -600,9 +600,10 @@ class ClassicalCode(AbstractCode):
         """
         assert all(0 <= bit < len(self) for bit in bits)
         generator = self.generator
-        for bit in sorted(bits, reverse=True):
+        for bit in sorted(set(bits), reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            first_row = int(np.any(generator[:, 0]))  # 0 if all code words are zero on this bit
+            generator = generator.row_reduce()[first_row:, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From dc0aa339737f0597080a5c07ed00f3cf6dc5cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 02/77] fix: the classical distance kernel overflowed 8-bit
 weights for code words of weight above 255

---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..ee81f48 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)  # avoid uint8 overflow
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 4aff9b0eb93ad28d710ab938e20e681e8de3cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 03/77] fix: classical distance bounds set up unsolvable
 decoding problems, on which exact decoders raise an error

---
 qldpc/codes/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3fcceac..d852221 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -486,8 +486,10 @@ class ClassicalCode(AbstractCode):
 
         valid_candidate_found = False
         while not valid_candidate_found:
-            # construct an effective check matrix with a random nonzero word
-            random_word = get_random_array(self.field, len(self), satisfy=lambda vec: vec.any())
+            # construct an effective check matrix with a random word that overlaps with a code word
+            random_word = get_random_array(
+                self.field, len(self), satisfy=lambda vec: np.any(self.generator @ vec)
+            )
             effective_check_matrix = np.vstack([self.matrix, random_word])
 
             # find a low-weight candidate code word
-- 
2.43.0


From b14a80a822e3164a574003fe106d0a1275799a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 04/77] fix: order-zero Reed-Muller codes could not be
 constructed

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..12ff026 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -163,7 +163,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 3d8ea5ae013f8554f50478f5c62aab97e80f2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 05/77] fix: building a Tanner code removed the sort labels
 from the caller's graph

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 12ff026..d0a37c2 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From e41fbb9ac9c4a238d4d64a409bc02de1cf03b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 06/77] fix: a ring code on one bit had a parity check that
 contradicts its stated dimension

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index d0a37c2..5a0a589 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -52,7 +52,7 @@ class RingCode(ClassicalCode):
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
             self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From f85680fa7ae5022d6ace07a7e80ec07f5d1e24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 07/77] fix: Tanner graphs lost checks without support and idle
 (qu)bits, so converting them back to a matrix failed

---
 qldpc/codes/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index d852221..1704d83 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -274,6 +274,8 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -783,7 +785,10 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.asanyarray(matrix)
+        matrix = matrix.reshape(len(matrix), 2, matrix.shape[1] // 2)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
-- 
2.43.0


From 46d0270f452a603a0aae4658c0a583eb9ddc2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 08/77] fix: a general qudit code could not be built from a CSS
 code

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 1704d83..416de74 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -92,7 +92,7 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
+            self._matrix = matrix.matrix
             self._field = matrix._field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
-- 
2.43.0


From 7a6df6d7cbb2fa774f3e020f0b758e2bae0380a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 09/77] fix: malformed qudit operator strings raised the wrong
 error or were read as an operator that drops a factor

---
 qldpc/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..aae95dd 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -133,12 +133,14 @@ class QuditOperator:
         factors = string.split("*")
         if len(factors) > 2:
             raise ValueError(invalid_op)
+        if len(factors) == 2 and {factor[:1] for factor in factors} != {"X", "Z"}:
+            raise ValueError(invalid_op)
 
         for factor in factors:
-            pauli = factor[0]
+            pauli = factor[:1]
             val_str = factor[2:-1]
             _factor = f"{pauli}({val_str})"
-            if pauli not in "XYZ" or not val_str.isnumeric() or factor != _factor:
+            if not pauli or pauli not in "XYZ" or not val_str.isnumeric() or factor != _factor:
                 raise ValueError(invalid_op)
 
             val = int(val_str)
-- 
2.43.0


From 05e2bbcc32c3a51f21574cc51a4f9c2139acc34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 10/77] fix: Tanner graphs made from plain integer matrices
 could not be converted back to matrices

---
 qldpc/codes/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 416de74..b91f73f 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -289,7 +289,7 @@ class ClassicalCode(AbstractCode):
         """Convert a Tanner graph into a parity check matrix."""
         num_bits = sum(node.is_data for node in graph.nodes())
         num_checks = len(graph.nodes()) - num_bits
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         matrix = galois.GF(field).Zeros((num_checks, num_bits))
         for node_c, node_b, data in graph.edges(data=True):
             matrix[node_c.index, node_b.index] = data.get("val", 1)
@@ -818,7 +818,7 @@ class QuditCode(AbstractCode):
         for node_check, node_qudit, data in graph.edges(data=True):
             op = data.get(QuditOperator) or data.get(Pauli)
             matrix[node_check.index, :, node_qudit.index] = op.value
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         return galois.GF(field)(matrix.reshape(num_checks, 2 * num_qudits))
 
     def get_strings(self) -> list[str]:
-- 
2.43.0


From bf9bb86ef7731469f66197cc85d7b14eda4e0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 11/77] fix: graph-based hypergraph products lost isolated
 nodes and required a field on the input graphs

---
 qldpc/codes/quantum.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..376070d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -763,8 +763,13 @@ class HGPCode(CSSCode):
         # start with a cartesian products of the input graphs
         graph_product = nx.cartesian_product(graph_a, graph_b)
 
+        # identify the base field
+        order = graph_a.order if isinstance(graph_a.order, int) else DEFAULT_FIELD_ORDER
+        field = galois.GF(order)
+
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product.nodes)
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
@@ -779,7 +784,7 @@ class HGPCode(CSSCode):
                 node_qudit, sector_qudit = node_snd, sector_snd
 
             # start with an X-type operator
-            op = QuditOperator((data.get("val", 0), 0))
+            op = QuditOperator((field(int(data.get("val", 0))), 0))
 
             # switch to Z-type operator for check qudits in the (0, 1) sector
             if sector_check == (0, 1):
@@ -797,12 +802,11 @@ class HGPCode(CSSCode):
         graph = nx.relabel_nodes(graph, node_map)
 
         # remember order of the field, and use Pauli operators if appropriate
-        if hasattr(graph_a, "order"):
-            graph.order = graph_a.order
-            if graph.order == 2:
-                for _, __, data in graph.edges(data=True):
-                    data[Pauli] = Pauli(data[QuditOperator].value)
-                    del data[QuditOperator]
+        graph.order = order
+        if graph.order == 2:
+            for _, __, data in graph.edges(data=True):
+                data[Pauli] = Pauli(data[QuditOperator].value)
+                del data[QuditOperator]
 
         return graph
 
-- 
2.43.0


From fc09d820c25f2cc142f2b3d252746f817b2ebb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 12/77] fix: stabilizers of one Pauli type ignored the request
 for a canonical (minimal) generating set

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index b91f73f..9a5b8a4 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1202,7 +1202,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From 9bb570b50f6c74e7a884c1ff94324fee9e6b4704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 13/77] fix: conjugating a code over a field of odd
 characteristic dropped the sign of the Fourier transform, so that checks no
 longer commuted

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 9a5b8a4..d6d57ca 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1374,12 +1374,14 @@ class QuditCode(AbstractCode):
             qudits = getattr(self, "_default_conjugate", ())
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
         matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, 0, qudits] *= -self.field(1)
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
             logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, 0, qudits] *= -self.field(1)
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From 7d0393ac4c5dd56d6fbfa3c6437b5108404bcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 14/77] fix: logical operators of the same type that do not
 commute with each other were accepted as valid

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index d6d57ca..dd788a9 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1185,6 +1185,10 @@ class QuditCode(AbstractCode):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            if np.any(symplectic_conjugate(logical_ops_x) @ logical_ops_x.T) or np.any(
+                symplectic_conjugate(logical_ops_z) @ logical_ops_z.T
+            ):
+                raise ValueError("The given logical operators have incorrect commutation relations")
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 9b6e2d0091449a3883870c0076bfad670e27db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 15/77] fix: stabilizers that are not row reduced passed as
 canonical

---
 qldpc/codes/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index dd788a9..bba2170 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2446,9 +2446,9 @@ def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
 
 def _is_canonicalized(matrix: npt.NDArray[np.int_]) -> bool:
     """Is the given matrix in canonical (row-reduced) form?"""
-    return all(
-        matrix[row, pivot] and not np.any(matrix[:row, pivot])
-        for row, pivot in enumerate(first_nonzero_cols(matrix))
+    pivots = first_nonzero_cols(matrix)
+    return bool(np.all(np.diff(pivots) > 0)) and np.array_equal(
+        matrix[:, pivots], np.eye(len(matrix), dtype=int)
     )
 
 
-- 
2.43.0


From 6149f4e586bd19cf9d9143f1a913556b27178119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 16/77] fix: concatenating codes permuted the logical operators
 of the inner code that was passed in

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index bba2170..2e25626 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1559,7 +1560,8 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
+        # permute logical operators of (a copy of) the inner code
+        inner = copy.copy(inner)
         inner._logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
-- 
2.43.0


From 6a73c09fb66209532d633c71d2d552145dce6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 17/77] fix: reducing a logical operator modified arrays of
 logical operators held by the caller or by other codes

---
 qldpc/codes/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2e25626..057b9fd 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2217,10 +2217,10 @@ class CSSCode(QuditCode):
             actual_syndrome = effective_check_matrix @ candidate_logical_op.view(self.field)
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
-        assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        # update a copy of the logical operators, as they may be in use elsewhere
+        logical_ops = self.get_logical_ops().copy().reshape(2, self.dimension, 2, len(self))
+        logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+        self._logical_ops = logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From 2a6a4168ae915b5de6f25bc9c4caa9067e757ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 18/77] fix: codes without checks or logical operators could
 not be deformed

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 057b9fd..296bcae 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1415,7 +1415,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(np.reshape(np.array(new_strings, dtype=int), strings.shape))
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From 6741a836965fac5a080b0ac626c35b2e99463647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 19/77] fix: logical and gauge operators of subsystem codes
 without a standard form were invalid

---
 qldpc/codes/common.py | 55 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 296bcae..5ae3aa0 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -910,6 +910,10 @@ class QuditCode(AbstractCode):
         check matrix when written in standard form (see QuditCode.get_standard_form_data), and then
         fill in the remaining entries of the logical operator matrix as required by parity check
         constraints.
+
+        If the parity checks of a subsystem code do not have a standard form, then the logical
+        operators are instead sorted into conjugate pairs by symplectic Gram-Schmidt elimination,
+        in which case there is no guarantee that logical Z-type operators have no X-type support.
         """
         assert pauli is None or pauli in PAULIS_XZ
 
@@ -921,6 +925,11 @@ class QuditCode(AbstractCode):
         if not (self._logical_ops is None or recompute):
             return self._logical_ops
 
+        if not self._has_standard_form():
+            stabs_and_logs = symplectic_conjugate(self.canonicalized.matrix).null_space()
+            self._logical_ops = _get_conjugate_pairs(stabs_and_logs)
+            return self._logical_ops
+
         # construct the standard-form parity check matrix
         (
             matrix,
@@ -988,6 +997,23 @@ class QuditCode(AbstractCode):
         self._logical_ops = logical_ops
         return logical_ops
 
+    def _has_standard_form(self) -> bool:
+        """Can the parity checks of this code be written in standard form?
+
+        The standard form of a subsystem code requires that every gauge qudit has a gauge operator
+        with only physical Z-type support.
+        """
+        if not self.is_subsystem_code:
+            return True
+        rank_x = [
+            np.count_nonzero(first_nonzero_cols(matrix) < len(self))
+            for matrix in [
+                self.canonicalized.matrix,
+                self.get_stabilizer_ops(canonicalized=True),
+            ]
+        ]
+        return rank_x[0] - rank_x[1] == self.gauge_dimension
+
     def get_standard_form_data(
         self,
     ) -> tuple[
@@ -1042,7 +1068,12 @@ class QuditCode(AbstractCode):
             matrix[rows_sz, 1, cols_sz]
             matrix[rows_gz, 1, cols_gz]
         is guaranteed to be an identity matrix.
+
+        Not every subsystem code has parity checks that can be written in standard form.
         """
+        if not self._has_standard_form():
+            raise ValueError("The parity checks of this code do not have a standard form")
+
         matrix: npt.NDArray[np.int_]
         cols_lx: Slice
         cols_lz: Slice
@@ -2446,6 +2477,30 @@ def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
     ).astype(int)
 
 
+def _get_conjugate_pairs(vectors: galois.FieldArray) -> galois.FieldArray:
+    """Sort the given symplectic vectors into conjugate pairs, dropping the center of their span.
+
+    The result is organized in the same way as the logical operators of a QuditCode.
+    """
+    vectors_x, vectors_z = [], []
+    while len(vectors):
+        vector, vectors = vectors[0], vectors[1:]
+        products = vectors @ symplectic_conjugate(vector)
+        if not np.any(products):
+            continue
+        index = np.nonzero(products)[0][0]
+        partner = vectors[index] / products[index]
+
+        # make all other vectors orthogonal to the new conjugate pair
+        vectors, products = np.delete(vectors, index, axis=0), np.delete(products, index)
+        partner_products = vectors @ symplectic_conjugate(partner)
+        vectors = vectors - np.outer(products, partner) + np.outer(partner_products, vector)
+
+        vectors_x.append(vector)
+        vectors_z.append(partner)
+    return np.reshape(vectors_x + vectors_z, (-1, vectors.shape[1])).view(type(vectors))
+
+
 def _is_canonicalized(matrix: npt.NDArray[np.int_]) -> bool:
     """Is the given matrix in canonical (row-reduced) form?"""
     pivots = first_nonzero_cols(matrix)
-- 
2.43.0


From fcfedccc4c9d7e4116da1ca18fc16df2c8c3857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 20/77] fix: logical X-type operators of non-CSS subsystem
 codes did not commute with each other

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 5ae3aa0..3db53de 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -992,6 +992,10 @@ class QuditCode(AbstractCode):
         permutation = np.argsort(qudit_locs)
         logicals_x = logicals_x.reshape(-1, len(self))[:, permutation].reshape(-1, 2 * len(self))
         logicals_z = logicals_z.reshape(-1, len(self))[:, permutation].reshape(-1, 2 * len(self))
+
+        # multiply logical X-type operators by logical Z-type operators to make them commute
+        products = symplectic_conjugate(logicals_x) @ logicals_x.T
+        logicals_x = logicals_x + np.tril(products, -1).view(self.field) @ logicals_z
         logical_ops = np.vstack([logicals_x, logicals_z]).view(self.field)
 
         self._logical_ops = logical_ops
-- 
2.43.0


From 2e64bdc4c54d8627ac8da10ae4d90a2f46d1f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 21/77] fix: stabilizer rows of the standard form of a
 subsystem code were not always stabilizers

---
 qldpc/codes/common.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3db53de..069ac58 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1177,12 +1177,8 @@ class QuditCode(AbstractCode):
             Row reducing the combiner stabilizer + gauge matrices added gauge ops to stabilizers to
             zero out entries above the gauge-pivot columns.  Remove the added gauge operators.
             """
-            matrix_x[:num_stabs_x] += (
-                stabilizers_x[:num_stabs_x, pivots_gx] @ matrix_x[num_stabs_x:]
-            )
-            matrix_z[:num_stabs_z] += (
-                stabilizers_z[:num_stabs_z, pivots_gz] @ matrix_z[num_stabs_z:]
-            )
+            matrix_x[:num_stabs_x] = stabilizers_x
+            matrix_z[:num_stabs_z] = stabilizers_z
 
             # full parity check matrix in standard form
             matrix = np.vstack([matrix_x, np.hstack([np.zeros_like(matrix_z), matrix_z])])
-- 
2.43.0


From 08c2fbbe7a3cb1d3fe8fc878ec2240398350caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 22/77] fix: the ILP decoder could not represent all syndromes
 over fields of odd order

---
 qldpc/decoders.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..f54c1a2 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -418,28 +418,29 @@ class ILPDecoder(Decoder):
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses slack variables {s_j} to relax each constraint of the form
         `expression = val mod q`
         to
-        `expression = val + sum_j q^j s_j`.
+        `expression = val + sum_j 2^j s_j`, with boolean variables s_j, if q = 2, and
+        `expression = val + q s`, with a non-negative integer variable s, if q > 2.
         """
         syndrome = np.asarray(syndrome, dtype=int) % self.modulus
 
         constraints = []
         for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
-            # identify the largest power of q needed for the relaxation
+            # identify the largest multiple of q needed for the relaxation
             max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
-                max_power_of_q = max_zero.bit_length() - 1
-            else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
-
-            if max_power_of_q > 0:
-                powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
-                zero_mod_q = powers_of_q @ slack_variables
-            else:
+            if max_zero < self.modulus:
                 zero_mod_q = 0
+            elif self.modulus == 2:
+                max_power_of_2 = max_zero.bit_length() - 1
+                powers_of_2 = [2**jj for jj in range(1, max_power_of_2 + 1)]
+                slack_variables = cvxpy.Variable(max_power_of_2, boolean=True)
+                zero_mod_q = powers_of_2 @ slack_variables
+            else:
+                slack_variable = cvxpy.Variable(integer=True)
+                constraints += [slack_variable >= 0, slack_variable <= max_zero // self.modulus]
+                zero_mod_q = self.modulus * slack_variable
 
             constraint = check @ self.variables == syndrome_bit + zero_mod_q
             constraints.append(constraint)
-- 
2.43.0


From 26e59017e85c38b61accff75d32889548c182b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 23/77] fix: the ILP decoder truncated numerical solutions
 instead of rounding them

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index f54c1a2..a4dc96b 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -411,7 +411,7 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.rint(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
-- 
2.43.0


From 7f643a6f1401bb52dd0475a93e14d77d60da2036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 24/77] fix: lookup decoders responded to a trivial syndrome
 with an undetectable error

---
 qldpc/decoders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index a4dc96b..e99f4f3 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -198,7 +198,9 @@ class LookupDecoder(Decoder):
                     syndrome = matrix @ code_error
                     self.table[tuple(syndrome.view(np.ndarray))] = code_error.view(np.ndarray)
 
+        # a trivial syndrome requires no correction, even if some error has a trivial syndrome
         self.null_correction = np.zeros(matrix.shape[1], dtype=int)
+        self.table.pop((0,) * len(matrix), None)
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-- 
2.43.0


From 9a98bf50cae33902625e2d74c0fc0f58bddebeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 25/77] fix: modifying a correction returned by a lookup
 decoder corrupted the lookup table

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index e99f4f3..bcbfa45 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -204,7 +204,7 @@ class LookupDecoder(Decoder):
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From f240b1f72ac89390693bc55547a92be26d757112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 26/77] fix: the symplectic GUF decoder rejected parity checks
 given as a plain integer matrix

---
 qldpc/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index bcbfa45..78c2ae0 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -261,7 +261,8 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
-            self.code = codes.QuditCode(symplectic_conjugate(matrix))
+            code = codes.QuditCode(matrix)
+            self.code = codes.QuditCode(symplectic_conjugate(code.matrix))
 
         self.graph = self.code.graph.to_undirected()
 
-- 
2.43.0


From 64752a0f2297a4c3299f9b5549e9716801fb1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 27/77] fix: reducing a logical operator could replace it by a
 heavier one

---
 qldpc/codes/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 069ac58..f34658b 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2248,6 +2248,11 @@ class CSSCode(QuditCode):
             actual_syndrome = effective_check_matrix @ candidate_logical_op.view(self.field)
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
+        # keep the logical operator that we have if the candidate is not lighter
+        logical_op = self.get_logical_ops(pauli)[logical_index]
+        if np.count_nonzero(candidate_logical_op) >= np.count_nonzero(logical_op):
+            return
+
         # update a copy of the logical operators, as they may be in use elsewhere
         logical_ops = self.get_logical_ops().copy().reshape(2, self.dimension, 2, len(self))
         logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-- 
2.43.0


From 6aa04bda1eb3a093d4725e0574626b9ad91e7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 28/77] fix: rotated surface codes with a single row or column
 could not be constructed

---
 qldpc/codes/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 376070d..e9f4763 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1426,7 +1426,11 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        # a code with only one row (column) has no X-type (Z-type) parity checks
+        shape = (-1, rows * cols)
+        matrix_x = np.array(checks_x, dtype=int).reshape(shape)
+        matrix_z = np.array(checks_z, dtype=int).reshape(shape)
+        return matrix_x, matrix_z
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From ce433555a5a4cb2bbb2aa765b894f38ce521d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 29/77] fix: groups built from a non-Abelian multiplication
 table multiplied members in reverse, so that their lift was not a
 representation

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..ee8adfd 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -285,7 +285,9 @@ class Group:
         integer_lift: IntegerLift | None = None,
     ) -> Group:
         """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        # Identify a member with the permutation b -> b * a of the group.  SymPy composes permutations
+        # from left to right, so products of permutations agree with those in the table.
+        members = {GroupMember(col): idx for idx, col in enumerate(np.transpose(table))}
 
         if integer_lift is None:
             return Group(*members)
@@ -1227,7 +1229,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return sign * (np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From 667e1d1da05d899feeddfd2b9d58b3f6d832cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 30/77] fix: a group could not be built from a list of
 generating matrices with repetitions

---
 qldpc/abstract.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ee8adfd..fd5923c 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -304,11 +304,14 @@ class Group:
             return TrivialGroup()
 
         # keep track of group members and a multiplication table
-        index_to_member = {
-            idx: gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int)
-            for idx, gen in enumerate(matrices)
-        }
-        hash_to_index = {hash(gen.data.tobytes()): idx for idx, gen in index_to_member.items()}
+        index_to_member: dict[int, npt.NDArray[np.int_]] = {}
+        hash_to_index: dict[int, int] = {}
+        for matrix in matrices:
+            gen = matrix if isinstance(matrix, np.ndarray) else np.asarray(matrix, dtype=int)
+            if (gen_hash := hash(gen.data.tobytes())) not in hash_to_index:
+                hash_to_index[gen_hash] = idx = len(hash_to_index)
+                index_to_member[idx] = gen
+        num_generators = len(index_to_member)
         table_as_dict = {}
 
         new_members: dict[int, npt.NDArray[np.int_]]
@@ -347,7 +350,7 @@ class Group:
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[row]) for row in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From aadb49572d9a519157c5c1751f5dfcbba61f5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 31/77] fix: the lift of a non-Abelian group built from
 generating matrices was not a representation

---
 qldpc/abstract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index fd5923c..31e51d1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -342,15 +342,15 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # dictionary from a permutation (b -> b * a) to the index of a group member
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(num_generators)]
+        generators = [GroupMember(table[:, col]) for col in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From ca29a01c115f22a3c0ba446ad57b2dda31f68c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 32/77] fix: the lift of the special linear group reversed the
 order of products

---
 qldpc/abstract.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 31e51d1..052a699 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1299,7 +1299,8 @@ class SpecialLinearGroup(Group):
 
         if linear_rep:
             # Construct a linear representation of this group, in which group elements permute
-            # elements of the vector space that the generating matrices act on.
+            # elements of the vector space that the generating matrices act on.  For consistency with
+            # how SymPy composes permutations, matrices act on (row) vectors from the right.
 
             # identify the target space that group members (as matrices) act on: all nonzero vectors
             target_space = [
@@ -1313,7 +1314,7 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1321,17 +1322,17 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From cd677b44417d4b003121ee8a1d509717218ac62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 33/77] fix: inverses of group-algebra elements were wrong for
 groups whose enumeration does not start with the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 052a699..e21e9dc 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -686,7 +686,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 021ea7db1da105241d2faab8f3b430d781f849c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 34/77] fix: the lift of the projective special linear group
 was not a representation, failed for some members, and changed from one
 process to the next

---
 qldpc/abstract.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index e21e9dc..9b5c149 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1402,7 +1402,8 @@ class ProjectiveSpecialLinearGroup(Group):
 
         if linear_rep:
             # Construct a linear representation of this group, in which group elements permute
-            # elements of the vector space that the generating matrices act on.
+            # elements of the vector space that the generating matrices act on.  For consistency with
+            # how SymPy composes permutations, matrices act on vectors from the right.
 
             # identify multiplicative roots of unity
             num_roots = math.gcd(self.dimension, self.field.order - 1)
@@ -1416,7 +1417,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 for vec in itertools.product(range(self.field.order), repeat=self.dimension)
             ]
             del target_orbits[0]  # remove the orbit of the zero vector
-            target_space = [next(iter(orbit)) for orbit in set(target_orbits)]
+            target_space = [min(orbit) for orbit in dict.fromkeys(target_orbits)]
 
             # identify how the generators permute elements of the target space
             generators = []
@@ -1424,27 +1425,31 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
 
-            # construct a lift identical to that for the linear representation of SL
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                If the only root of unity is 1, then PSL = SL, so use the matrices in SL: each row is
+                determined by how the matrix acts on a standard basis vector.  Otherwise, group
+                members are only defined up to roots of unity, so use the permutation matrices that
+                represent how group members act on the target space.
                 """
-                cols = []
+                if num_roots > 1:
+                    return member.to_matrix()
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From 8f20d60bff99a46a8e59c94be3d452eeea94f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 35/77] fix: iterating over the matrices of the projective
 special linear group yielded flattened vectors

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 9b5c149..edaaa0f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1496,7 +1496,8 @@ class ProjectiveSpecialLinearGroup(Group):
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
         for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            mat = np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            yield mat.reshape(dimension, dimension)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From f78b462e65a71aef425271204b0cdb4a60308a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 36/77] fix: generating matrices of projective special linear
 groups of dimension above 2 generated another group

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index edaaa0f..f1bcfa3 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1479,8 +1479,8 @@ class ProjectiveSpecialLinearGroup(Group):
         if base_field.order == 2:
             return gen_x, gen_w
         return (
-            np.kron(np.linalg.inv(gen_x), gen_x).view(base_field),
-            np.kron(np.linalg.inv(gen_w), gen_w).view(base_field),
+            np.kron(np.linalg.inv(gen_x).T, gen_x).view(base_field),
+            np.kron(np.linalg.inv(gen_w).T, gen_w).view(base_field),
         )
 
     @staticmethod
-- 
2.43.0


From 0023dc4771a83ef87b671508b18b191ed51cc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 37/77] fix: random members of the first small group of every
 order were always the identity, so that random symmetric subsets never
 terminated

---
 qldpc/abstract.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index f1bcfa3..0d9ade6 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1258,8 +1258,11 @@ class SmallGroup(Group):
         self.group_index = index
 
     def random(self, *, seed: int | None = None) -> GroupMember:
-        """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
+        """A random element this group.
+
+        A group with only one element needs special treatment; see TrivialGroup.random.
+        """
+        return super().random(seed=seed) if self.order > 1 else self.identity
 
     @functools.cached_property
     def structure(self) -> str:
-- 
2.43.0


From 971e02754ba53774003415c174676ff8ec92e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 38/77] Revert the change of generating matrices of projective
 special linear groups

The original generators give a group of the same order; no defect was shown.
---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0d9ade6..f08b995 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1482,8 +1482,8 @@ class ProjectiveSpecialLinearGroup(Group):
         if base_field.order == 2:
             return gen_x, gen_w
         return (
-            np.kron(np.linalg.inv(gen_x).T, gen_x).view(base_field),
-            np.kron(np.linalg.inv(gen_w).T, gen_w).view(base_field),
+            np.kron(np.linalg.inv(gen_x), gen_x).view(base_field),
+            np.kron(np.linalg.inv(gen_w), gen_w).view(base_field),
         )
 
     @staticmethod
-- 
2.43.0


From fec2dd560044b1a0d2bec1417d8cdf89f029dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 39/77] fix: Abelian groups with a factor of order one listed
 wrong members and generators

---
 qldpc/abstract.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index f08b995..27efa58 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1139,6 +1139,14 @@ class AbelianGroup(Group):
         identity_mats = [np.eye(order, dtype=int) for order in orders]
         vals = [sum(orders[:idx]) for idx in range(len(orders))]
 
+        # one generator for every cyclic group; SymPy discards the generators of trivial groups
+        self._factor_generators = tuple(
+            GroupMember.from_sympy(
+                comb.Permutation([list(range(val, val + order))], size=sum(orders))
+            )
+            for order, val in zip(orders, vals)
+        )
+
         # build lift manually, which is faster than the default lift
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             shifts = [member.apply(val) - val for val in vals]
@@ -1155,11 +1163,16 @@ class AbelianGroup(Group):
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
             for powers in itertools.product(*[range(order) for order in orders]):
-                factors = [gen**power for gen, power in zip(group.generators, powers)]
+                factors = [gen**power for gen, power in zip(self._factor_generators, powers)]
                 yield functools.reduce(operator.mul, factors)
 
         super()._init_from_group(group, name, generate_func, lift)
 
+    @property
+    def generators(self) -> Sequence[GroupMember]:
+        """Generators of this group, with one generator for every cyclic group."""
+        return list(self._factor_generators)
+
 
 class CyclicGroup(AbelianGroup):
     """Cyclic group of a specified order.
@@ -1179,6 +1192,7 @@ class CyclicGroup(AbelianGroup):
             return np.roll(identity_mat, member.apply(0), axis=0)
 
         super()._init_from_group(comb.named_groups.CyclicGroup(order), lift=lift)
+        self._factor_generators = tuple(map(GroupMember.from_sympy, self._group.generators))
 
 
 class DihedralGroup(Group):
-- 
2.43.0


From c5351653ce8af1aa480e4631e98ad6a9460147dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 40/77] fix: subtracting a group member from a group-algebra
 element, or a group-algebra element from an integer, lost the sign or failed

---
 qldpc/abstract.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 27efa58..bcb3040 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -579,11 +579,14 @@ class RingMember:
         return NotImplemented  # pragma: no cover
 
     def __sub__(self, other: RingMember | GroupMember | int) -> RingMember:
-        return self + (-1) * other
+        return -(-self + other)
 
-    def __radd__(self, other: GroupMember) -> RingMember:
+    def __radd__(self, other: int | GroupMember) -> RingMember:
         return self + other
 
+    def __rsub__(self, other: int | GroupMember) -> RingMember:
+        return -self + other
+
     def __mul__(self, other: int | GroupMember | RingMember) -> RingMember:
         if isinstance(other, int):
             # multiply coefficients by 'other'
-- 
2.43.0


From f48c2135c671e91a794a09bbaacc10ccdbe02389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 41/77] fix: negative powers of group-algebra elements were all
 equal to one

---
 qldpc/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index bcb3040..bd536cd 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -627,6 +627,10 @@ class RingMember:
         return self * (-1)
 
     def __pow__(self, power: int) -> RingMember:
+        if power < 0:
+            if (inverse := self.inverse()) is None:
+                raise ValueError("Cannot raise a non-invertible element to a negative power")
+            return inverse ** (-power)
         return functools.reduce(operator.mul, [self] * power, self.ring.one)
 
     def copy(self) -> RingMember:
-- 
2.43.0


From 7324e896d5865e0491e76a2437490f1d7d07f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 42/77] fix: matrices over fields of prime-power order were
 changed when converted to arrays over the trivial group

---
 qldpc/abstract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index bd536cd..5ba70e0 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1122,12 +1122,12 @@ class TrivialGroup(Group):
         field = type(data).order if isinstance(data, galois.FieldArray) else None
         group = TrivialGroup()
         ring = GroupRing(group, field)
-        zero = ring.zero
-        one = ring.one
 
         array = np.asarray(data, dtype=int)
-        terms = [val * one if val else zero for val in array.ravel()]
-        return RingArray(np.array(terms, dtype=object).reshape(array.shape))
+        if field is None:
+            array = array % ring.field.order
+        terms = [RingMember(ring, (int(val), group.identity)) for val in array.ravel()]
+        return RingArray(np.array(terms, dtype=object).reshape(array.shape), ring)
 
 
 class AbelianGroup(Group):
-- 
2.43.0


From db5c25a72f3466bb5ad279d3b4cd433ab154c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 43/77] fix: null spaces of arrays over group algebras could
 not be computed when they were trivial

---
 qldpc/abstract.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 5ba70e0..752a3a8 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -816,12 +816,16 @@ class RingArray(npt.NDArray[np.object_]):
     def regular_lift(self) -> galois.FieldArray:
         """Block matrix obtained by a regular lift of each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros([size * self.group.order for size in self.shape])
         blocks = [[val.regular_lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
     def lift(self) -> galois.FieldArray:
         """Block matrix obtained by lifting each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros([size * self.group.lift_dim for size in self.shape])
         blocks = [[val.lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
@@ -874,7 +878,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -913,7 +917,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(len(null_field_vectors), self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From 4691243d5f83a650db95346370e6ef0bfc628d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 44/77] fix: row-reduced arrays over group algebras could have
 linearly dependent rows, or invertible entries that are not pivots

---
 qldpc/abstract.py | 81 +++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 752a3a8..ad8a69d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -967,19 +967,25 @@ class RingArray(npt.NDArray[np.object_]):
         Warning: this method is unoptimized.  There is a lot of room for speeding things up.
         """
 
-        # greedily convert invertible entries into "pivots" that are uniquely nonzero in some column
-        matrix = self._reduce_rows_with_invertible_entries()
+        matrix = self
+        while True:
+            # greedily convert invertible entries into "pivots", uniquely nonzero in some column
+            matrix = matrix._reduce_rows_with_invertible_entries()
 
-        # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+            # split matrix into rows with (invertible) pivots, and all other rows
+            pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
-        if non_pivot_matrix.size:
-            # identify a minimal basis for the span of the non-pivot rows
-            non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
+            if non_pivot_matrix.size:
+                # identify a minimal basis for the span of the non-pivot rows
+                non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
 
-        return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+            matrix = np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+            # a change of basis may have made some entries of the non-pivot rows invertible
+            if all(entry.inverse() is None for entry in non_pivot_matrix.ravel()):
+                return matrix
+
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
@@ -987,41 +993,42 @@ class RingArray(npt.NDArray[np.object_]):
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
         """
         assert self.ndim == 2
-        rows: slice | list[int]
 
-        matrix = self if restart_call else self.copy()
+        matrix = self.copy()
         num_rows, num_cols = self.shape
 
-        row_reductions_made = False  # did we perform row reductions?
-        noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
-            row_vector = matrix[row]
+        row_reductions_made = True  # did we perform row reductions?
+        rows_to_reduce = list(range(num_rows))  # which rows have no pivot yet?
+        while row_reductions_made and rows_to_reduce:
+            row_reductions_made = False
+            noninvertible_rows = []  # which rows have only non-invertible entries?
+            for row in rows_to_reduce:
+                row_vector = matrix[row]
 
-            # look for an invertible entry in this row
-            for col, entry in enumerate(row_vector):
-                if inverse := entry.inverse():
-                    break
+                # look for an invertible entry in this row
+                inverse = None
+                for col, entry in enumerate(row_vector):
+                    if inverse := entry.inverse():
+                        break
 
-            """
-            If we found an invertible entry,
-            - multiply this row by the inverse, so that this entry is 1, and
-            - zero out the corresponding column in all other rows.
-            """
-            if inverse:
-                # "normalize" the entry to 1, and zero out its column in all other rows
-                new_vector = inverse * row_vector
-                matrix[row] = new_vector
-                for rows in [slice(None, row), slice(row + 1, num_rows)]:
-                    matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
-                row_reductions_made = True
+                """
+                If we found an invertible entry,
+                - multiply this row by the inverse, so that this entry is 1, and
+                - zero out the corresponding column in all other rows.
+                """
+                if inverse:
+                    # "normalize" the entry to 1, and zero out its column in all other rows
+                    new_vector = inverse * row_vector
+                    matrix[row] = new_vector
+                    for rows in [slice(None, row), slice(row + 1, num_rows)]:
+                        matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
+                    row_reductions_made = True
 
-            else:
-                noninvertible_rows.append(row)
+                else:
+                    noninvertible_rows.append(row)
 
-        if row_reductions_made and noninvertible_rows:
             # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+            rows_to_reduce = noninvertible_rows
 
         return matrix
 
@@ -1037,7 +1044,7 @@ class RingArray(npt.NDArray[np.object_]):
         pivot_cols = np.sum(self_as_bool, axis=0) == 1
         for col in np.argwhere(pivot_cols):
             row = np.argwhere(self_as_bool[:, col])[0][0]
-            pivot_rows[row] = allow_non_units or self[row, col][0].inverse()
+            pivot_rows[row] |= allow_non_units or self[row, col][0].inverse() is not None
         pivot_matrix = self[pivot_rows].view(RingArray)
         non_pivot_matrix = self[~pivot_rows].view(RingArray)
         return pivot_matrix, non_pivot_matrix[np.any(non_pivot_matrix, axis=1)]
-- 
2.43.0


From 1ada37cc2ed0081188723594a35a827905eae671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 45/77] fix: the identity was not recognised as a member of
 trivial groups

---
 qldpc/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ad8a69d..d3cacbf 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,7 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        return member in self._group or member == self.identity
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 934710a2c333babc48d95ac2542cbe5bc0bf4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 46/77] fix: groups with one member other than TrivialGroup
 could not draw random members

---
 qldpc/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index d3cacbf..b9209a0 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -252,6 +252,9 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            # SymPy cannot "unrank" the only member of a trivial group
+            return self.identity
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cache
-- 
2.43.0


From 3f9fb1f00e8ec43e696361c3fe9190a86a802043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 47/77] fix: lifts of group-algebra elements of special linear
 groups over fields of prime-power order were wrong

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b9209a0..54c8a8a 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1371,7 +1371,8 @@ class SpecialLinearGroup(Group):
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
                     rows.append(out_vec)
-                return np.vstack(rows, dtype=int)
+                matrix = np.vstack(rows, dtype=int)
+                return matrix if self.field.degree == 1 else matrix.view(self.field)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1487,7 +1488,8 @@ class ProjectiveSpecialLinearGroup(Group):
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
                     rows.append(out_vec)
-                return np.vstack(rows, dtype=int)
+                matrix = np.vstack(rows, dtype=int)
+                return matrix if self.field.degree == 1 else matrix.view(self.field)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From 6e996a5835e560369838ebc959310cbde00410ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 48/77] fix: empty arrays over group algebras, such as trivial
 null spaces, could not be converted to coefficients

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 54c8a8a..4e915b4 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -889,7 +889,8 @@ class RingArray(npt.NDArray[np.object_]):
         This method is the inverse of RingArray.from_field_array.
         """
         vals = [val.to_vector() for val in self.ravel()]
-        return np.asarray(vals).reshape(self.shape + (self.group.order,)).view(self.field)
+        array = np.asarray(vals, dtype=self.field.dtypes[0])
+        return array.reshape(self.shape + (self.group.order,)).view(self.field)
 
     @classmethod
     def from_field_vector(cls, ring: GroupRing | Group, vector: npt.NDArray[np.int_]) -> RingArray:
@@ -903,7 +904,7 @@ class RingArray(npt.NDArray[np.object_]):
         """Convert a RingArray into a vector of coefficients."""
         assert self.ndim == 1
         vals = [val.to_vector() for val in self.ravel()]
-        return np.asarray(vals).ravel().view(self.field)
+        return np.asarray(vals, dtype=self.field.dtypes[0]).ravel().view(self.field)
 
     def null_space(self, *, force_heuristic: bool = True) -> RingArray:
         """Construct a matrix of null-space row vectors for this RingArray.
-- 
2.43.0


From f7d8883219438c8ea8a5684af57ded845c267f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 49/77] fix: row reduction over non-Abelian group algebras
 removed rows that are right multiples of other rows, changing the row space
 and null spaces

---
 qldpc/abstract.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 4e915b4..f794658 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1078,12 +1078,14 @@ class RingArray(npt.NDArray[np.object_]):
             self.ring, field_vectors.reshape(len(field_vectors), -1, self.group.order)
         )
 
-        """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
-        """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        # expand each row vector v over the ring into the row vectors {g * v : g in group}
+        field_array = ring_matrix.to_field_array()
+        multiples = self.field.Zeros(
+            (len(ring_matrix), self.group.order, self.shape[1], self.group.order)
+        )
+        for gg, products in enumerate(self.group.table):
+            multiples[:, gg, :, products] = field_array.transpose(2, 0, 1)
+        field_matrix = multiples.reshape(len(ring_matrix) * self.group.order, -1)
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-- 
2.43.0


From 56e357a274c76f0c439999f3461ccf6875f4a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 50/77] fix: lifted product codes over non-Abelian groups could
 be built with parity checks that do not commute

---
 qldpc/codes/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index e9f4763..eda1396 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1017,7 +1017,11 @@ class LPCode(CSSCode):
         # if Hadamard-transforming qudits, conjugate those in the (1, 1) sector by default
         self._default_conjugate = slice(self.sector_size[0, 0], None)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=False)
+        code_matrix_x, code_matrix_z = matrix_x.lift(), matrix_z.lift()
+        if not matrix_a.ring.is_abelian and np.any(code_matrix_x @ code_matrix_z.T):
+            raise ValueError("The RingArrays provided for this LPCode are incompatible")
+
+        CSSCode.__init__(self, code_matrix_x, code_matrix_z, field, is_subsystem_code=False)
 
 
 class SLPCode(CSSCode):
-- 
2.43.0


From d86a8c31c8e0bc4f50fa956eda095f12a43fee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 51/77] fix: quasi-cyclic codes with two or more cyclic groups
 that no polynomial uses could not be constructed (infinite loop)

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index eda1396..f2516b2 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -225,7 +225,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From 96f6ea380cb71b6d1187075162a8592301b4a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 52/77] fix: canonical forms of polynomials, and polynomials of
 toric layouts, had wrong coefficients, and monomials were split into their
 factors

---
 qldpc/codes/quantum.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index f2516b2..9b69ee4 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -301,21 +301,22 @@ class QCCode(TBCode):
         orders = orders or self.orders
         assert len(orders) == len(self.symbols)
 
-        # canonialize and add one term ata time
-        new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        # canonialize one term at a time, collecting terms with the same exponents
+        new_coeffs: dict[sympy.Basic, galois.FieldArray] = {}
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_monomial = sympy.core.numbers.One()
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_monomial *= symbol**new_exponent
 
-            new_poly += new_term
+            new_coeff = new_coeffs.get(new_monomial, self.field(0)) + self.field(int(coeff))
+            new_coeffs[new_monomial] = new_coeff
 
-        return new_poly
+        return sympy.Add(*[int(coeff) * monomial for monomial, coeff in new_coeffs.items()])
 
 
 # TODO: example notebook featuring this code
@@ -493,8 +494,10 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        terms_a = sympy.Add.make_args(self.poly_a.as_expr())
+        terms_b = sympy.Add.make_args(self.poly_b.as_expr())
+        monomials_a = [term.as_coeff_Mul()[1] for term in terms_a]
+        monomials_b = [term.as_coeff_Mul()[1] for term in terms_b]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From ef2a4bd98252320ccd541bc627de91a8d6ea1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 53/77] fix: two-block codes of field arrays lost their field,
 and became codes over F_2 or could not be built

---
 qldpc/codes/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 9b69ee4..338220c 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -153,6 +153,7 @@ class TBCode(CSSCode):
         """Construct a two-block quantum code."""
         matrix_a = ClassicalCode(matrix_a, field).matrix
         matrix_b = ClassicalCode(matrix_b, field).matrix
+        field = type(matrix_a).order
         if validate and not np.array_equal(matrix_a @ matrix_b, matrix_b @ matrix_a):
             raise ValueError("The matrices provided for this TBCode are incompatible")
 
-- 
2.43.0


From 573c42118ca1f8f13f650d53b40de99a1cefa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 54/77] fix: toric layouts of bicycle codes whose polynomials
 repeat a group member could not be found or were not nearest-neighbour

---
 qldpc/codes/quantum.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 338220c..2fdbf6b 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -495,8 +495,10 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        terms_a = sympy.Add.make_args(self.poly_a.as_expr())
-        terms_b = sympy.Add.make_args(self.poly_b.as_expr())
+        poly_a = self.get_canonical_form(self.poly_a)
+        poly_b = self.get_canonical_form(self.poly_b)
+        terms_a = sympy.Add.make_args(poly_a)
+        terms_b = sympy.Add.make_args(poly_b)
         monomials_a = [term.as_coeff_Mul()[1] for term in terms_a]
         monomials_b = [term.as_coeff_Mul()[1] for term in terms_b]
 
@@ -523,8 +525,8 @@ class BBCode(QCCode):
             orders = (self.get_order(vec_g), self.get_order(vec_h))
 
             # new "shifted" polynomials
-            shifted_poly_a = (self.poly_a / a_1).expand()
-            shifted_poly_b = (self.poly_b / b_1).expand()
+            shifted_poly_a = (poly_a / a_1).expand()
+            shifted_poly_b = (poly_b / b_1).expand()
 
             # without loss of generality, enforce that the toric layout "width" >= "height"
             if orders[0] < orders[1]:
-- 
2.43.0


From dfd5f46e382d51d707f8f55126717d1c3f3b63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 55/77] fix: every two quantum Tanner codes compared equal

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 2fdbf6b..5e9c26b 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1159,11 +1159,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From 6871c8e836c7b7ec0c8f6c0022afdabc4042c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 56/77] fix: quantum Tanner codes could be built with parity
 checks that do not commute, from subcodes of the wrong lengths

---
 qldpc/codes/quantum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5e9c26b..44d8e92 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1153,6 +1153,11 @@ class QTCode(CSSCode):
         self.code_a = code_a
         self.code_b = code_b
         self.complex = CayleyComplex(subset_a, subset_b, bipartite=bipartite)
+        if (len(code_a), len(code_b)) != (len(self.complex.subset_a), len(self.complex.subset_b)):
+            raise ValueError(
+                "The sub-codes provided for this QTCode must have one bit for each member of the"
+                " corresponding generating subset"
+            )
         code_x, code_z = self.get_subcodes(self.complex, code_a, code_b)
         CSSCode.__init__(self, code_x, code_z, field, is_subsystem_code=False)
 
-- 
2.43.0


From 8d49b97ed620fa360b12ef0ee608ce0f46bc3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 57/77] fix: the order of qudits in a quantum Tanner code
 depended on string hashing, so that loading a saved code in another process
 gave another code

---
 qldpc/codes/quantum.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 44d8e92..b364871 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1205,25 +1205,24 @@ class QTCode(CSSCode):
         then requires that edge (ag, f(g,a,b)) has label (a^-1, b), as verified by defining g' = ag
         and checking that f(g,a,b) = f(g',a^-1,b).
         """
-        subset_a = cayplex.cover_subset_a
-        subset_b = cayplex.cover_subset_b
+        # iterate over sorted subsets to get the same order of faces every time this method is called
+        subset_a = sorted(cayplex.cover_subset_a)
+        subset_b = sorted(cayplex.cover_subset_b)
 
         # identify the identity element
         member = next(iter(subset_a))
         identity = member * ~member
 
         # identify the set of nodes for which we still need to add faces
-        nodes_to_add = set([identity])
+        nodes_to_add = [identity]
 
         # build the subgraphs one node at a time
         subgraph_x = nx.DiGraph()
         subgraph_z = nx.DiGraph()
         while nodes_to_add:
             gg = nodes_to_add.pop()
-
-            # identify nodes we have already covered, and new nodes we may need to cover
-            old_nodes = set(subgraph_x.nodes())
-            new_nodes = set()
+            if gg in subgraph_x:
+                continue
 
             # add all faces adjacent to this node
             for aa, bb in itertools.product(subset_a, subset_b):
@@ -1233,9 +1232,7 @@ class QTCode(CSSCode):
                 subgraph_x.add_edge(gg, face, sort=(aa, bb))
                 subgraph_z.add_edge(aa_gg, face, sort=(~aa, bb))
 
-                new_nodes.add(aa_gg_bb)
-
-            nodes_to_add |= new_nodes - old_nodes
+                nodes_to_add.append(aa_gg_bb)
 
         return subgraph_x, subgraph_z
 
-- 
2.43.0


From 2d9270d9b07219663b60d632988370ce7646f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 58/77] fix: quantum Tanner codes with a subcode without parity
 checks could be saved but not loaded

---
 qldpc/codes/quantum.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index b364871..310172a 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1302,21 +1302,18 @@ class QTCode(CSSCode):
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
-        # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
+        # load lists of integers from the last four sections of the file, which may be empty
+        comments = [index for index, line in enumerate(lines) if line.startswith("#")][-6:-1]
+        arrays = [
+            [[int(val) for val in line.split()] for line in lines[start + 1 : stop]]
+            for start, stop in zip(comments, comments[1:])
+        ]
 
         # construct subsets and generating codes
         subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
         subset_b = set(abstract.GroupMember(gen) for gen in arrays[1])
-        code_a = ClassicalCode(arrays[2], field)
-        code_b = ClassicalCode(arrays[3], field)
+        code_a = ClassicalCode(np.array(arrays[2], dtype=int).reshape(-1, len(subset_a)), field)
+        code_b = ClassicalCode(np.array(arrays[3], dtype=int).reshape(-1, len(subset_b)), field)
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
 
-- 
2.43.0


From dccd3424e8a161b8f7359af96dde07680c2d56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 59/77] fix: tensor products of chain complexes over group
 algebras had boundary operators with plain integers for entries, which could
 not be lifted

---
 qldpc/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index aae95dd..280ef62 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -549,5 +549,5 @@ class ChainComplex:
         if chain_a.group is None:
             ops = [op.view(chain_field) for op in ops]
         else:
-            ops = [op.view(abstract.RingArray) for op in ops]
+            ops = [abstract.RingArray.build(op, chain_a.ops[0].ring) for op in ops]
         return ChainComplex(*ops, skip_validation=True)
-- 
2.43.0


From f5bf9ee4dac583dc765a3a0574e93a2a0829a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 60/77] fix: tensor products of chain complexes over
 non-Abelian group algebras could be built with boundary operators that do not
 compose to zero

---
 qldpc/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 280ef62..bde3252 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -550,4 +550,7 @@ class ChainComplex:
             ops = [op.view(chain_field) for op in ops]
         else:
             ops = [abstract.RingArray.build(op, chain_a.ops[0].ring) for op in ops]
-        return ChainComplex(*ops, skip_validation=True)
+
+        # boundary operators of the product may not compose to zero over a non-Abelian group algebra
+        is_abelian = chain_a.group is None or chain_a.group.is_abelian
+        return ChainComplex(*ops, skip_validation=is_abelian)
-- 
2.43.0


From 2e356262f44c4ee08929a8dc3b20ab594b1bba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 61/77] fix: get_logical_error_rate_func never returned when
 the maximum error rate is zero

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index f34658b..3d793dc 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2526,6 +2526,9 @@ def _get_sample_allocation(
 
     # zero out the distribution at k=0, flatten it out to the left of its peak, and renormalize
     probs[0] = 0
+    if not np.any(probs):
+        # only the trivial (weight-0) error can occur, so there is nothing to sample
+        return np.zeros(1, dtype=int)
     probs[1 : np.argmax(probs)] = probs.max()
     probs /= np.sum(probs)
 
@@ -2550,7 +2553,8 @@ def _get_error_probs_by_weight(
     We compute the above probability using logarithms because otherwise the combinatorial factor
     (n choose k) might be too large to handle.
     """
-    max_weight = max_weight or block_length
+    if max_weight is None:
+        max_weight = block_length
 
     # deal with some pathological cases
     if error_rate == 0:
-- 
2.43.0


From 2139642ebadda33770a7ec6821c93a2df01ef22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 62/77] fix: calls with keyword arguments shared disk cache
 entries with calls that pass (name, value) tuples as positional arguments

---
 qldpc/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index d4f217d..3136d14 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -27,6 +27,10 @@ import diskcache
 import platformdirs
 
 
+class _KeywordArguments:
+    """Marker that separates positional arguments from keyword arguments in a cache key."""
+
+
 def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcache.Cache:
     """Retrieve a dictionary-like cache object."""
     if running_with_pytest():
@@ -55,7 +59,7 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                key = args + tuple(kwargs.items())
+                key = args + ((_KeywordArguments, *kwargs.items()) if kwargs else ())
             if key in cache:
                 return cache[key]
 
-- 
2.43.0


From a4ddd6aeef0e7868f20ecaf5bd2beb8f25ca2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 63/77] fix: cached functions raised a KeyError if their cache
 entry was removed by another process (or evicted) between looking it up and
 reading it

---
 qldpc/cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index 3136d14..41fcd4e 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -27,6 +27,9 @@ import diskcache
 import platformdirs
 
 
+_MISSING = object()  # marker for results that are not in a cache
+
+
 class _KeywordArguments:
     """Marker that separates positional arguments from keyword arguments in a cache key."""
 
@@ -60,8 +63,8 @@ def use_disk_cache(
                 key = key_func(*args, **kwargs)
             else:
                 key = args + ((_KeywordArguments, *kwargs.items()) if kwargs else ())
-            if key in cache:
-                return cache[key]
+            if (result := cache.get(key, _MISSING)) is not _MISSING:
+                return result
 
             # compute results and save to cache
             result = function(*args, **kwargs)
-- 
2.43.0


From 008328fec2d4799557b0a346b50290c2a260e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 64/77] fix: automorphism groups that fix the last bits of a
 code acted on too few bits, which made searches for transversal gates crash

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3d793dc..a144639 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -568,7 +568,11 @@ class ClassicalCode(AbstractCode):
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
         group_str = "AutomorphismGroup" if self.field.order == 2 else "PermutationAutomorphismGroup"
-        return abstract.Group.from_name(f"{group_str}({code_str})")
+        group = abstract.Group.from_name(f"{group_str}({code_str})")
+
+        # the permutations above only address bits up to the last one that is moved by the group
+        generators = [abstract.GroupMember(gen, size=len(self)) for gen in group.generators]
+        return abstract.Group(*generators, name=group.name)
 
     @staticmethod
     def stack(*codes: ClassicalCode) -> ClassicalCode:
-- 
2.43.0


From c0db14129200089c774394ea9b4cd4b43c43c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 65/77] fix: coefficients of idempotents that lie in a proper
 subfield, such as Z(2^2) in GF(16), were read as other field elements

---
 qldpc/external/groups.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..4829d99 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,16 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # Convert "Z(p^k)^m" into an element of galois.GF(field), which contains galois.GF(p**k).
+            # Primitive elements in GAP are roots of Conway polynomials, so the primitive element of
+            # a subfield is a power of the primitive element of the whole field.
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            exponent = mm * ((field - 1) // (pp**kk - 1))
+            coefficient = galois.GF(field).primitive_element ** exponent
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From b4eee022e13676d1f16c41a4add716c11ef9a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 66/77] fix: names that merely start with a SmallGroup were
 taken for that SmallGroup when read from GroupNames.org

---
 qldpc/external/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 4829d99..0b4bed0 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -140,7 +140,7 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     """Retrieve GAP group generators from GroupNames.org."""
 
     # extract order and index of a SmallGroup
-    match = re.match(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
+    match = re.fullmatch(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
     if match:
         order, index = map(int, match.groups())
     else:
-- 
2.43.0


From 2aae98b16daafba12ceddf24b8037e3a9efb4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 67/77] fix: modifying the generators of a known group also
 modified the stored generators, and thereby all later answers

---
 qldpc/external/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 0b4bed0..6c113a3 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -35,7 +35,7 @@ def get_generators(group: str) -> GENERATORS_LIST:
     """Retrieve GAP group generators."""
 
     if generators := KNOWN_GROUPS.get(group):
-        return generators
+        return [list(generator) for generator in generators]
 
     generators = get_generators_with_gap(group)
     if generators is not None:
-- 
2.43.0


From 449c8035c4783587bbb92993210b2043ed964864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 68/77] fix: unexpected output of GAP was read (and cached) as
 an empty set of idempotents

---
 qldpc/external/groups.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6c113a3..7cbd876 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -291,6 +291,9 @@ def get_primitive_central_idempotents(
 
         idempotents.append(tuple(idempotent))
 
+    if not idempotents:
+        raise ValueError(f"Cannot extract idempotents from string: {idempotents_str}")
+
     return tuple(idempotents)
 
 
-- 
2.43.0


From 7bdcd533eac7d7f0c03dd5b7eda89fd27de340d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 69/77] fix: circuit methods given a qudit code by keyword
 skipped the qubit-only check and returned a meaningless qubit tableau

---
 qldpc/circuits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..4d8b0b4 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -34,7 +34,8 @@ def restrict_to_qubits(func: Callable[..., stim.Circuit]) -> Callable[..., stim.
 
     @functools.wraps(func)
     def qubit_func(*args: object, **kwargs: object) -> stim.Circuit:
-        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in args):
+        all_args = [*args, *kwargs.values()]
+        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in all_args):
             raise ValueError("Circuit methods are only supported for qubit codes")
         return func(*args, **kwargs)
 
-- 
2.43.0


From 5a2c1428161b527b0c45b69ea9cc9b80ddd7e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 70/77] fix: transversal code deformations were searched with
 the roles of S and SQRT_X exchanged, so that returned circuits broke the
 logical operators (errors) and valid ones were missed

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 4d8b0b4..dfce27b 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -206,7 +206,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From dce7031682046ac62cb4436954402fba121871e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 71/77] fix: searching for transversal operations of codes
 without nontrivial automorphisms crashed

---
 qldpc/circuits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index dfce27b..bf117a3 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -257,7 +257,9 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
-    group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
+    group_sympy = group_a.to_sympy()
+    if not group_sympy.is_trivial:  # Sympy cannot search for subgroups of a trivial group
+        group_sympy = group_sympy.subgroup_search(group_b.to_sympy().contains)
     return abstract.Group(group_sympy).hashable_generators()
 
 
-- 
2.43.0


From 983cc2f37283702e6f9f077481fc8d1ee86104a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 72/77] fix: stacking CSS codes as general codes changed the
 logical operators of the codes that were passed in into operators of mixed
 type

---
 qldpc/codes/common.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index a144639..59e5827 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1480,18 +1480,12 @@ class QuditCode(AbstractCode):
         is_subsystem_code = any(code.is_subsystem_code for code in codes)
         code = QuditCode(matrix, is_subsystem_code=is_subsystem_code)
         if inherit_logicals:
-            logicals_xx = [
-                QuditCode.get_logical_ops(code, Pauli.X)[:, : len(code)] for code in codes
-            ]
-            logicals_zx = [
-                QuditCode.get_logical_ops(code, Pauli.Z)[:, : len(code)] for code in codes
-            ]
-            logicals_xz = [
-                QuditCode.get_logical_ops(code, Pauli.X)[:, len(code) :] for code in codes
-            ]
-            logicals_zz = [
-                QuditCode.get_logical_ops(code, Pauli.Z)[:, len(code) :] for code in codes
-            ]
+            logical_ops_x = [code.get_logical_ops()[: code.dimension] for code in codes]
+            logical_ops_z = [code.get_logical_ops()[code.dimension :] for code in codes]
+            logicals_xx = [ops[:, : len(code)] for ops, code in zip(logical_ops_x, codes)]
+            logicals_zx = [ops[:, : len(code)] for ops, code in zip(logical_ops_z, codes)]
+            logicals_xz = [ops[:, len(code) :] for ops, code in zip(logical_ops_x, codes)]
+            logicals_zz = [ops[:, len(code) :] for ops, code in zip(logical_ops_z, codes)]
             logical_ops = np.block(
                 [
                     [scipy.linalg.block_diag(*logicals_xx), scipy.linalg.block_diag(*logicals_xz)],
-- 
2.43.0


From eec1c38e3b17cc8606583852ca5c8ce50e8379e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 73/77] fix: a bound on the distance of a vector from a code
 undercuts that distance if the decoder fails to find a correction (e.g.,
 with_lookup and a small max_weight)

---
 qldpc/codes/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 59e5827..f8495f5 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -476,11 +476,12 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            vector = np.asarray(vector, dtype=int).view(self.field)
+            syndrome = self.matrix @ vector
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding was unsuccessful, so fall back to the distance from the all-0 code word
+                correction = vector
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From b9ff2fe144b1adfe4c47ae43d347ed7c85e92085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 74/77] fix: BCHCode refused all admissible block lengths over
 fields with more than ten elements

---
 qldpc/codes/classical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 5a0a589..fea4ea2 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -127,8 +127,10 @@ class BCHCode(ClassicalCode):
 
     def __init__(self, length: int, dimension: int, field: int | None = None) -> None:
         field = field or DEFAULT_FIELD_ORDER
-        length_in_base = np.base_repr(length, base=field)
-        if not length_in_base == str(field - 1) * len(length_in_base):
+        power = field
+        while power <= length:
+            power *= field
+        if power != length + 1:
             raise ValueError(
                 f"BCH codes over F_{field} are only defined for block lengths {field}^m - 1 with"
                 " integer m."
-- 
2.43.0


From feb43df4dd3c835c81f75b04c0d9615127972b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 75/77] fix: recognise equal matrices of different integer
 types in Group.from_generating_mats

---
 qldpc/abstract.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index f794658..e0dc79d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -306,13 +306,17 @@ class Group:
         if not matrices:
             return TrivialGroup()
 
+        def get_key(matrix: npt.NDArray[np.int_]) -> tuple[int, ...]:
+            """Identify a matrix by its entries, irrespective of the data type of the matrix."""
+            return tuple(matrix.ravel().tolist())
+
         # keep track of group members and a multiplication table
         index_to_member: dict[int, npt.NDArray[np.int_]] = {}
-        hash_to_index: dict[int, int] = {}
+        key_to_index: dict[tuple[int, ...], int] = {}
         for matrix in matrices:
             gen = matrix if isinstance(matrix, np.ndarray) else np.asarray(matrix, dtype=int)
-            if (gen_hash := hash(gen.data.tobytes())) not in hash_to_index:
-                hash_to_index[gen_hash] = idx = len(hash_to_index)
+            if (gen_key := get_key(gen)) not in key_to_index:
+                key_to_index[gen_key] = idx = len(key_to_index)
                 index_to_member[idx] = gen
         num_generators = len(index_to_member)
         table_as_dict = {}
@@ -322,12 +326,12 @@ class Group:
         def _account_for_product(aa_idx: int, bb_idx: int) -> None:
             """Account for the product of two matrices."""
             cc_mat = index_to_member[aa_idx] @ index_to_member[bb_idx]
-            cc_hash = hash(cc_mat.data.tobytes())
-            if cc_hash not in hash_to_index:
-                hash_to_index[cc_hash] = cc_idx = len(hash_to_index)
+            cc_key = get_key(cc_mat)
+            if cc_key not in key_to_index:
+                key_to_index[cc_key] = cc_idx = len(key_to_index)
                 new_members[cc_idx] = cc_mat
             else:
-                cc_idx = hash_to_index[cc_hash]
+                cc_idx = key_to_index[cc_key]
             table_as_dict[aa_idx, bb_idx] = cc_idx
 
         # generate all members of the group and build the group multiplication table
-- 
2.43.0


From 8116ba460f85dfd743d9f104583b559571b2ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 76/77] fix: generating matrices of PSL(3,4) generated a larger
 group: inverses without a transpose are not a representation

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index e0dc79d..d665fbc 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1526,8 +1526,8 @@ class ProjectiveSpecialLinearGroup(Group):
         if base_field.order == 2:
             return gen_x, gen_w
         return (
-            np.kron(np.linalg.inv(gen_x), gen_x).view(base_field),
-            np.kron(np.linalg.inv(gen_w), gen_w).view(base_field),
+            np.kron(np.linalg.inv(gen_x).T, gen_x).view(base_field),
+            np.kron(np.linalg.inv(gen_w).T, gen_w).view(base_field),
         )
 
     @staticmethod
-- 
2.43.0


From c99d7f2455dfc3a68944b1508db634e472d1a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 77/77] fix: Tanner codes on undirected graphs sorted edges by
 their order of insertion rather than by the neighbor of a vertex

---
 qldpc/codes/classical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index fea4ea2..f25ea71 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,8 +246,8 @@ class TannerCode(ClassicalCode):
         directed_subgraph = nx.DiGraph()
         for node_a, node_b, edge_data in subgraph.edges(data=True):
             edge = frozenset([node_a, node_b])
-            directed_subgraph.add_edge(node_a, edge)
-            directed_subgraph.add_edge(node_b, edge)
+            directed_subgraph.add_edge(node_a, edge, sort=node_b)
+            directed_subgraph.add_edge(node_b, edge, sort=node_a)
             if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
-- 
2.43.0

