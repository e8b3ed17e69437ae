From 2e71f839b6ed7cd7c1a6fe8b6ea8dcda85e67bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 01/14] fix: reject an empty index label with ValueError
 instead of IndexError

---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..ba99590 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -12,7 +12,7 @@ class Index:
         if not check_str:
             raise TypeError("Index name has to be string type.")
 
-        s = name[0]
+        s = name[:1]
         n = name[1:]
         if s not in space_priority:
             msg = "Improper Index name:\n"
-- 
2.43.0


From 6dc1007e77262b75da8fb3342abf4f67ac7a6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 02/14] fix: equal indices written with leading zeros (g1, g01)
 share name and hash

---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index ba99590..84702cb 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -23,9 +23,9 @@ class Index:
             msg += f"{name} does not have an integer after the space label."
             raise ValueError(msg)
 
-        self._name = name
         self._space = s
         self._number = int(n)
+        self._name = f"{s}{self._number}"
         return
 
     @property
-- 
2.43.0


From 3d1daa75868dc7fed26931230d27cf61294e4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 03/14] fix: nested iterations over one Indices object no
 longer share a cursor

---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From 1a2a8908b4fd53597159ff6e41f7856cbfc1767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 04/14] fix: integer_partition(1) yields the partition [1]

---
 dsrg_generator/helper/integer_partition.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..d3f16f0 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -9,10 +9,8 @@ def integer_partition(n):
     x = [1] * n
     x[0] = n
     m, h = 1, 1
+    yield x[:1]
     while x[0] != 1:
-        if x[0] == n:
-            yield x[:1]
-
         if x[h - 1] == 2:
             m += 1
             x[h - 1] = 1
-- 
2.43.0


From ce6b6831160229be36973a3c3e98424286146bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 05/14] fix: MOSpaceCounter adds up alpha and beta counts of
 the same space

---
 dsrg_generator/mo_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..129b79f 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -78,7 +78,9 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
+        self._input_counter = {}
+        for k, n in input_counter.items():
+            self._input_counter[k.lower()] = self._input_counter.get(k.lower(), 0) + n
 
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
-- 
2.43.0


From 6fcab88142ef8919f5f6795c8a9c88ab86f9e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 06/14] fix: canonicalize returns an empty Term when a term
 vanishes by symmetry

---
 dsrg_generator/Term.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..729cce7 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -770,6 +770,8 @@ class Term:
 
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
+        if gc == 0:  # the term vanishes by symmetry
+            return self.void()
 
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
-- 
2.43.0


From f54a47c4c85a6ba4855fb864d951f46fd71c3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 07/14] fix: SpaceCounter uses the existing indices_type
 attribute

---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From 7b559779dee73a2dff6c6f7870f713be8675a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 08/14] fix: combine_terms no longer changes the coefficients
 of its input terms

---
 dsrg_generator/phys_op_contraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..f7418eb 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -149,6 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
+        term = Term.from_term(term)
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From 567544f596437689a886bed27e60699fa83c330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 09/14] fix: generated ambit driver multiplies the results by
 factor

---
 dsrg_generator/write_forte_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..ebe2e94 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -75,7 +75,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From d5296a5f0559ff3842f9add22171c69fc5bd872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 10/14] fix: generated ambit driver declares temp whenever it
 is used

---
 dsrg_generator/write_forte_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index ebe2e94..03dc8b7 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -55,6 +55,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -62,8 +64,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
-- 
2.43.0


From 8b6a8a80351fe414b05a126cb0c75abfed6d5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 11/14] fix: bch_cc_rsc keeps active indices of the Hamiltonian
 for multireference amplitudes

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index f7418eb..f870168 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -345,11 +345,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From de69c7c05f6b691920e785d32fdad64a91877795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 12/14] fix: composite_contractions works without a precomputed
 compatibility table

---
 dsrg_generator/sqop_contraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/sqop_contraction.py b/dsrg_generator/sqop_contraction.py
index f8403ac..9860b14 100644
--- a/dsrg_generator/sqop_contraction.py
+++ b/dsrg_generator/sqop_contraction.py
@@ -353,7 +353,7 @@ class ElementaryContractionCategorized:
         :return: an iterator of "coded" composite contractions
         """
         if compatible is None:
-            compatible = self.compatible_elementary_contractions(target.keys())
+            compatible = self.compatible_elementary_contractions(list(target.keys()))
 
         choices = set(chain(*[self.category_range(k) for k in target.keys()]))
 
-- 
2.43.0


From 43a48ff88a3e3689fef09b7343502d3275b17f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 13/14] fix: simplify keeps a Kronecker delta on a diagonal
 index connected

---
 dsrg_generator/Term.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 729cce7..aa2d7bc 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -631,6 +631,7 @@ class Term:
                     else:
                         replacement[high] = low
                         Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+                        Term._add_replacement_diagonal(low, high, self.diagonal_indices, replacement_diagonal)
             else:
                 list_of_tensors.append(tensor)
 
-- 
2.43.0


From 16eb31631d6f80269650ffba3ec40e7a4015ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:36 +0000
Subject: [PATCH 14/14] fix: make_excitation keeps the spin of beta indices

---
 dsrg_generator/Term.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index aa2d7bc..0e338ba 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1054,16 +1054,18 @@ class Term:
         replacement = {}
         next_index_number = {i: 0 for i in self.next_index_number.keys()}
         for i in self.sq_op.cre_ops:
-            overlap = space_relation[part] & space_relation[i.space]
+            label = part.upper() if i.is_beta() else part
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = part if overlap == space_relation[part] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
         for i in self.sq_op.ann_ops:
-            overlap = space_relation[hole] & space_relation[i.space]
+            label = hole.upper() if i.is_beta() else hole
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = hole if overlap == space_relation[hole] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
 
         for tensor in self.list_of_tensors:
-- 
2.43.0

