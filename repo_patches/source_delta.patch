From 08da8997e71f32afe4dfc25576ff333208f2604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 01/22] fix: sign of products with several rim hooks in
 qmult_rh

Each removed rim hook contributes its own height; the heights were
taken from the union of the hooks, and (-1)**negative gave floats.
---
 schubertpy/grassmannian.py | 3 ++-
 schubertpy/partition.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..1e7c896 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,8 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            # one factor (-1)**(height - kp) per removed rim hook
+            sign = -1 if (height - kp * q_num) % 2 else 1
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..e2f9b4e 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -98,6 +98,7 @@ class Partition:
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_height = 0  # Initialize the total height of the removed rim hooks
         
         while True:
             _partition = current_partition + [0]  # Append 0 to handle the difference calculation
@@ -131,18 +132,20 @@ class Partition:
                 # Accumulate the height of the removed rim hook
                 if not _is_non_increasing(_partition):
                     # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height + skew_partition_height([], current_partition)
 
                 _partition = part_clip(_partition)
                 new_partition = Partition(_partition)
+                # Each rim hook contributes its own height: hooks may share rows
+                total_height += skew_partition_height(new_partition.partition, current_partition)
 
                 if new_partition.is_in_range(nrow, ncol):
                     # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
+                    return new_partition, total_rim_hooks_removed, total_height
 
                 if new_partition.partition == current_partition:
                     # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 # Update the partition for the next iteration
                 current_partition = new_partition.partition
-- 
2.43.0


From 42adbbe1871cbf001faa609065307b9b9be2b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 02/22] fix: partitions given as lists to pieri, part2index,
 part2pair, pair2part and type_swap

They raised, read the unset globals of qcalc, or returned raw sympy expressions.
---
 schubertpy/abstract_grassmannian.py   |  2 +-
 schubertpy/grassmannian.py            |  5 ++---
 schubertpy/isotropic_grassmannian.py  |  9 ++++-----
 schubertpy/orthogonal_grassmannian.py | 11 ++++-------
 4 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..62c45f1 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -105,7 +105,7 @@ class AbstractGrassmannian(ABC):
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
-            return self._pieri(i, lc, self._k, self._n)
+            return LinearCombination(self._pieri(i, lc, self._k, self._n))
         else:
             return apply_lc(lambda p: self._pieri(i, p, self._k, self._n), lc)
 
diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 1e7c896..391f7ff 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
@@ -120,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..16d7bef 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -100,21 +99,21 @@ class IsotropicGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2pair_inner(lc, self._k)
+            return LinearCombination(part2pair_inner(lc, self._k))
         else:
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
     
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            return pair2part_inner(lc)
+            return LinearCombination(pair2part_inner(lc))
         else:
             return apply_lc(pair2part_inner, lc)
         
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
@@ -133,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..1a15a0a 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -137,8 +136,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
-            return part2pair_inner(lc, self._k)
+            return LinearCombination(part2pair_inner(lc, self._k))
         else:
             lc = LinearCombination(lc)
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
@@ -146,15 +144,14 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
-            return pair2part_inner(lc)
+            return LinearCombination(pair2part_inner(lc))
         else:
             lc = LinearCombination(lc)
             return apply_lc(pair2part_inner, lc)
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
@@ -186,7 +183,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From 3ceb51b7131f0bcb6af3b5d1c6e8d230aa7b1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 03/22] fix: clone() of isotropic and orthogonal Grassmannians

It passed internal parameters to the constructor and raised or gave another space.
---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 62c45f1..d931617 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,7 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        return self.__class__(*self.get_type_data()[4:6])
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From 7f2aab9e3648a6859dab180077f0b2e0771128b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 04/22] fix: do not rely on set iteration order for the
 complement of a partition

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 1a15a0a..39269c6 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -293,7 +293,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From 9061f0e747d33e61fe7be5366d9c95f69fd82c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 05/22] fix: schur_to_sage_schur passed the method instead of
 the partition

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From 0272dc392b19361f691b0caacdd87ce6a6ae8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/22] fix: draw and save a partition on its own figure, and
 close it when saving fails

plt.text/axis/savefig act on whatever figure is current, which another thread
or caller may have changed.
---
 schubertpy/schur.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..247cd83 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -134,7 +134,7 @@ class Schur(object):
         
         # Add the label above the partition
         label = f"$S_{{{tuple(self.p)}}}$"
-        plt.text(max_row_length / 2, 1, label, ha='center', va='bottom', fontsize=24)
+        ax.text(max_row_length / 2, 1, label, ha='center', va='bottom', fontsize=24)
         
         for y, row_length in enumerate(self.p):
             for x in range(row_length):
@@ -144,14 +144,16 @@ class Schur(object):
         ax.set_aspect('equal')
         ax.set_xlim(-1, max_row_length + 1)
         ax.set_ylim(-num_rows - 1, 1)
-        plt.axis('off')
+        ax.axis('off')
         return fig, ax
 
     def export_png(self, filename: str) -> None:
         """Exports the partition as a PNG image."""
         fig, ax = self.plot_partition()
-        plt.savefig(filename, bbox_inches='tight', pad_inches=0.1)
-        plt.close(fig)
+        try:
+            fig.savefig(filename, bbox_inches='tight', pad_inches=0.1)
+        finally:
+            plt.close(fig)
     
     def to_polinomial_str(self, n) -> str:
         """
-- 
2.43.0


From 9ebb245b4da37a7b9a210766863e799d7dd97894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 07/22] fix: quantum parameters q1 and q2 in operands

On OG(n,2n+2) the result of one quantum product could not be multiplied again.
---
 schubertpy/abstract_grassmannian.py | 3 +--
 schubertpy/qcalc.py                 | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index d931617..00997e2 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -192,8 +192,7 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 70e8b9b..5650fa3 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -606,8 +606,7 @@ def act_lc(expc: sp.Expr, lc: Union[sp.Expr, LinearCombination, str], pieri: Cal
     # print("act_lc")
     lc = LinearCombination(lc)
 
-    q = sp.Symbol('q')
-    vars = expc.free_symbols - {q}
+    vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
     vars = sorted(vars, key=lambda x: str(x))
     
     # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From c7db0e9cfe1d935bd7af7ffcf0b86b93ebcf0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 08/22] fix: read powers written with ^, as the library prints
 them, in compared CSV files

---
 schubertpy/csv_bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index 48c88c3..b934b90 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -10,7 +10,7 @@ def _read_csv_transformed(filename):
             if not any(row):
                 continue
             if len(row) >= 3:
-                col3 = encode(row[2])
+                col3 = encode(row[2]).replace('^', '**')
                 col3 = sp.parse_expr(col3)
                 col3 = sp.expand(col3).simplify()
                 col3 = decode(str(col3))
-- 
2.43.0


From b401882897cf51f851cb5b5698155faa2667f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 09/22] fix: subtracting a number or expression from a
 LinearCombination gives a LinearCombination

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..7c1de3d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From fe5f9e77f26aca44d546bd4f73f3f385cf0324c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 10/22] fix: draw_ascii_partition of a combination with the
 empty partition

---
 schubertpy/lc.py        | 2 +-
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7c1de3d..32ca49d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -340,7 +340,7 @@ class LinearCombination(object):
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..e255c00 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From 03f9a811d44bf5c7fc3c8a5749c38fdad0d5a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 11/22] fix: Schubert classes of Gr(0,n) and point class of
 Gr(n,n)

Both spaces are points, with the single class S[].
---
 schubertpy/grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 391f7ff..1bf8957 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -66,7 +66,7 @@ class Grassmannian(AbstractGrassmannian):
             raise ValueError("Must set type with IG or OG or set_type functions.")
 
         mu = [self._k] * (self._n - self._k)
-        partitions = part_gen(mu)
+        partitions = part_gen(mu) or [[]]
         partitions.sort()
         res = [Schur(lam) for lam in partitions]
         res = unique_schur_list(res)
@@ -89,7 +89,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From 57c77f9de78802a138f44fd03d8617381f6be783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 12/22] fix: memo of giambelli_rec_inner never hit again and
 grew with every call

Its key held a lambda created anew by each giambelli/qgiambelli call.
---
 schubertpy/abstract_grassmannian.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 00997e2..adb38a9 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -103,6 +103,16 @@ class AbstractGrassmannian(ABC):
         return self.__class__(*self.get_type_data()[4:6])
         
 
+    # Bound methods compare equal between calls, so that the memo keyed on them
+    # is reused instead of growing with every call.
+    def _apply_pieri(self, i: int, p: List[int]) -> LinearCombination:
+        return self._pieri(i, p, self._k, self._n)
+
+
+    def _apply_qpieri(self, i: int, p: List[int]) -> LinearCombination:
+        return self._qpieri(i, p, self._k, self._n)
+
+
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
             return LinearCombination(self._pieri(i, lc, self._k, self._n))
@@ -119,7 +129,7 @@ class AbstractGrassmannian(ABC):
     def giambelli(self, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         lc = LinearCombination(lc)
         # print("ag:-giambelli: ", lc)
-        return self.giambelli_rec(lc, lambda i, p: self._pieri(i, p, self._k, self._n), self._k)
+        return self.giambelli_rec(lc, self._apply_pieri, self._k)
 
 
     def mult(self, lc1: Union[sp.Expr, LinearCombination, str], lc2: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
@@ -154,7 +164,7 @@ class AbstractGrassmannian(ABC):
         # print("qgiambelli")
         lc = LinearCombination(lc)
         # print("lc: ", lc)
-        return self.giambelli_rec(lc, lambda i, p: self._qpieri(i, p, self._k, self._n), self._k)
+        return self.giambelli_rec(lc, self._apply_qpieri, self._k)
 
 
     def qmult(
-- 
2.43.0


From 1474da128ee3a57477e88e03ce81185f17734599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 13/22] fix: qmult_rh left a new space behind in the memos on
 every call

---
 schubertpy/grassmannian.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 1bf8957..7cc893b 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -172,14 +172,16 @@ class Grassmannian(AbstractGrassmannian):
         n = self._n
         kp = n - self._k
 
-        _gr = self.clone()
-        _kp = _gr._n-_gr._k
-        # _gr._n = _gr._n + _delta
-        # _gr._k = _gr._k + _delta
-
-        
-        _gr._n = 2*n - 1
-        _gr._k = _gr._n - kp
+        # The memos keep every space they served: build the expanded one once.
+        _gr = getattr(self, '_expanded', None)
+        if _gr is None:
+            _gr = self.clone()
+            # _gr._n = _gr._n + _delta
+            # _gr._k = _gr._k + _delta
+
+            _gr._n = 2*n - 1
+            _gr._k = _gr._n - kp
+            self._expanded = _gr
 
         # print(f"expanded Grassmannian: Gr({_gr._n-_gr._k},{_gr._n})")
         res = _gr.mult(lc1, lc2)
-- 
2.43.0


From e01f25f0e75d6a23f7001f53c15587e1c557aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 14/22] fix: schub_type of a Schur object, which its signature
 accepts

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 39269c6..ef09960 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -191,7 +191,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if isinstance(lam, Schur):
+            lam = lam.p
+        if self._type != "D" or not isinstance(lam, list):
             raise ValueError("No type defined.")
         
         if self._k not in lam:
-- 
2.43.0


From 35edd6aa4009ccc3e506e2a8f83ae87d66465037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 15/22] fix: qpieri of one class handed out the object held by
 its memo

On OG(m,2n) a caller changing its result changed later results.
---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index adb38a9..85fe0db 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -147,7 +147,7 @@ class AbstractGrassmannian(ABC):
         lc = LinearCombination(lc)
         if isSchur(lc.expr):
             lam = toSchur(lc.expr).p
-            return self._qpieri(i, lam, self._k, self._n)
+            return LinearCombination(self._qpieri(i, lam, self._k, self._n))
         return apply_lc(lambda p: self._qpieri(i, p, self._k, self._n), lc)
 
 
-- 
2.43.0


From b77542c2a5902400cd3ec16ce701e7c459085147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 16/22] fix: to_polinomial_str cut trailing zeros off the
 partition it was given

---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index e255c00..f77303b 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From 6b988afaef5e5b4b80ba893e94dba9cbb84d3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 17/22] fix: sums, products and powers of a class with the zero
 combination raised

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 247cd83..ae4f917 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From 5f346bd38ccc243c4030a7131fd33817e0b99ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 18/22] fix: a single term with q was expanded and drawn
 although q terms were excluded

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 32ca49d..4c42245 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -274,6 +274,8 @@ class LinearCombination(object):
             be directly converted to a Schur expansion without prior expansion), or if the
             expression type is not supported for Schur expansion.
         """
+        if not include_q and not isinstance(expr, sp.Add) and str(expr).__contains__('q'):
+            return []
         if isinstance(expr, sp.Number):
             return (int(expr),[])
         if isSchur(expr):
-- 
2.43.0


From 75ef16dc10766facf9fa975903729822982899ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 19/22] fix: schur_expansion truncated constants that are not
 whole

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 4c42245..5202448 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -277,7 +277,7 @@ class LinearCombination(object):
         if not include_q and not isinstance(expr, sp.Add) and str(expr).__contains__('q'):
             return []
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_integer else expr, [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if isinstance(expr, sp.Mul):
-- 
2.43.0


From 67d5bff2cee64130537d9e037e41aaae96e91042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 20/22] fix: schur_expansion of a sum with a term it does not
 support recursed without end

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 5202448..f4379b0 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -285,10 +285,10 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
-- 
2.43.0


From a00da4831673085c275637092b2930ef2cca7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 21/22] fix: orthogonal Grassmannians of subspaces of more than
 half the dimension were accepted

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index ef09960..477ac95 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -36,7 +36,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
-            
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
+
         if n % 2 == 1:
             self._type = "B"
             self._k = (n-1)//2 - m
-- 
2.43.0


From b73d1b8893d7fb1998e73c3a8c34c5253ce9deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 22/22] fix: all_kstrict left its rectangle when k exceeds the
 number of columns

---
 schubertpy/utils/kstrict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schubertpy/utils/kstrict.py b/schubertpy/utils/kstrict.py
index ff7fa8f..1b73a24 100644
--- a/schubertpy/utils/kstrict.py
+++ b/schubertpy/utils/kstrict.py
@@ -19,13 +19,14 @@ def _first_kstrict(k: int, rows: int, cols: int) -> List[int]:
         List[int]: A list representing the first k-strict partition, where each element
                   is the length of the corresponding row. The partition is constructed
                   by starting with the maximum possible value (cols) and decreasing by 1
-                  for each row, but never going below k.
+                  for each row, but never going below k
+                  (or below cols, where cols is smaller than k).
                   
     Example:
         >>> _first_kstrict(k=2, rows=3, cols=5)
         [5, 4, 3]  # First k-strict partition with k=2, 3 rows, max width 5
     """
-    return [max(k, cols - i) for i in range(rows)]
+    return [max(min(k, cols), cols - i) for i in range(rows)]
 
 
 def _itr_kstrict(lambda_: List[int], k: int) -> Optional[List[int]]:
-- 
2.43.0

