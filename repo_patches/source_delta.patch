From 18ca0c8786530204a88df73da8fa7c26f083b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:32 +0000
Subject: [PATCH 01/24] fix: forget cached partition values when a set
 partition changes

---
 discretehelpers/set_part/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..7386f24 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -73,10 +73,9 @@ class SetPart(object):
         self.set_dummies()
 
     def set_dummies(self):
-        self._pairs = None
-        self._intval = None
-        self._canonical_blocks_with_singletons = None
-        self._singletons = None
+        # forget cached values of the state before reinitialization
+        for name in ['pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons']:
+            self.__dict__.pop(name, None)
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
-- 
2.43.0


From 66695b6f18e3ebd253dc47ea3f93be0ede148cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:43 +0000
Subject: [PATCH 02/24] fix: keep block labels when a set partition has only
 singletons

---
 discretehelpers/set_part/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 7386f24..e583dd5 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -15,6 +15,11 @@ class SetPart(object):
         else:
             self.domain = domain  # keep the letters
 
+        if have(block_labels):
+            self.block_labels = bidict(block_labels)
+        else:
+            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
+
         if blocks is None:
             self.set_trivial()
             return
@@ -43,11 +48,6 @@ class SetPart(object):
 
         self.trivial = False
 
-        if have(block_labels):
-            self.block_labels = bidict(block_labels)
-        else:
-            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
-
         self.set_dummies()
 
     from .metributes import pairs, intval, canonical_blocks_with_singletons, singletons
@@ -65,7 +65,6 @@ class SetPart(object):
         self.blocks = []
         self.non_singleton_to_block_index = dict()
         self.non_singletons = set()
-        self.block_labels = bidict()
 
         if self.domain == 'N':
             self.length = 0
-- 
2.43.0


From 1286951878a36aed9acf15551940f29080465b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:53 +0000
Subject: [PATCH 03/24] fix: refine_block changes nothing when refused and
 labels sorted blocks

---
 .../set_part/methods/refine_block/__init__.py      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..2127988 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -15,19 +15,17 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
-    self.blocks.remove(old_block)
-    self.blocks += new_blocks
+    # Work on copies, so nothing is changed when the labels are refused.
+    blocks = [block for block in self.blocks if block != old_block] + list(new_blocks)
 
-    try:  # The old block may have a label. If so, delete it. If not, do nothing.
-        del self.block_labels[tuple(old_block)]
-    except KeyError:
-        pass
+    block_labels = self.block_labels.copy()
+    block_labels.pop(tuple(old_block), None)  # The old block may have a label. If so, delete it.
 
     if have(new_labels):
         true_except(type(new_labels) in [list, tuple], ArgTypeError)
         true_except(len(new_labels) == len(new_blocks), ArgValueError)
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+            block_labels[tuple(sorted(block))] = label
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(blocks, self.domain, block_labels)  # reinitialize
-- 
2.43.0


From 119544081b8205677d8f113d550bcd84054826f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 04/24] fix: merge_many changes nothing when one of the merges
 is refused

---
 discretehelpers/set_part/methods/merge_many/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part/methods/merge_many/__init__.py b/discretehelpers/set_part/methods/merge_many/__init__.py
index d3cff86..04f4640 100644
--- a/discretehelpers/set_part/methods/merge_many/__init__.py
+++ b/discretehelpers/set_part/methods/merge_many/__init__.py
@@ -2,7 +2,10 @@ from itertools import combinations
 
 
 def merge_many(self, many):
+
+    # Work on a copy, so nothing is changed when one of the merges is refused.
+    merged = type(self)(self.blocks, self.domain, self.block_labels)
     for a, b in combinations(many, 2):
-        self.merge_pair(a, b)
+        merged.merge_pair(a, b)
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(merged.blocks, self.domain, merged.block_labels)  # reinitialize
-- 
2.43.0


From 463b5def7d1fb94d2bb144e326e07d10a8772472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:14 +0000
Subject: [PATCH 05/24] fix: join keeps the domain and refuses different
 domains

---
 .../set_part/methods/meet_and_join/join/_1_fast.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
-- 
2.43.0


From 5e03af474c8506b050a4c439793b983c1085b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:25 +0000
Subject: [PATCH 06/24] fix: list singletons of a trivial partition of the
 integers

---
 .../set_part/methods/blocks_with_singletons/__init__.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
index ac712b7..0f0ba2a 100644
--- a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
+++ b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
@@ -12,8 +12,8 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         if self.domain == 'N':
             elements = range(self.length)
         elif self.domain == 'Z':
-            low = min(self.non_singletons)
-            high = max(self.non_singletons) + 1
+            low = min(self.non_singletons, default=0)
+            high = max(self.non_singletons, default=-1) + 1
             elements = range(low, high)
         else:
             elements = self.domain
@@ -30,7 +30,7 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         true_except(self.domain == 'Z', RangeNotAllowedError)
         low, high = range_pair
         true_except(type(low) == type(high) == int, RangeWrongTypeError)
-        true_except(low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
+        true_except(all(low <= _ < high for _ in self.non_singletons), RangeMismatchError)
         elements = range(low, high)
 
     elif not have(length) and not have(range_pair) and have(elements):  # elements (not restricted by domain)
-- 
2.43.0


From b81b3b12b0bad0875de29cc6d81283c49d1827b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:35 +0000
Subject: [PATCH 07/24] fix: an element is equal to itself in SetPartComp

---
 discretehelpers/set_part_comp/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..425c24c 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -40,6 +40,8 @@ class SetPartComp():
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
+        if a == b:
+            return True  # holds also for singletons
         a_index, b_index = _exposet(self, a, b)
         if not (have(a_index) and have(b_index)):
             return False
-- 
2.43.0


From 9b1e1bec2b11c87835671824b7c5a9eb70b820d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:45 +0000
Subject: [PATCH 08/24] fix: SetPartComp does not change the set partition it
 is built from

---
 discretehelpers/set_part_comp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 425c24c..d12394c 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -17,7 +17,8 @@ class SetPartComp():
             if type(equal_part) == list:
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
-                self.equal_part = equal_part
+                # copy, because later statements change it
+                self.equal_part = SetPart(equal_part.blocks, equal_part.domain, equal_part.block_labels)
         else:
             self.equal_part = SetPart([], 'Z')
 
-- 
2.43.0


From 0dc4396650044fc430a92481f9d1e3f4d6bf5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:55 +0000
Subject: [PATCH 09/24] fix: SetPartComp checks the domain before changing
 anything

---
 discretehelpers/set_part_comp/methods/set_comp/__init__.py  | 2 ++
 discretehelpers/set_part_comp/methods/set_equal/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discretehelpers/set_part_comp/methods/set_comp/__init__.py b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
index ed59262..868ab2c 100644
--- a/discretehelpers/set_part_comp/methods/set_comp/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _pair
 from ...ex import *
 
 
 def set_comp(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_equal(a, b), SetCompEqualsError)
     if self.are_comp(a, b):
         return  # nothing to do
diff --git a/discretehelpers/set_part_comp/methods/set_equal/__init__.py b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
index 44d6fe6..481859b 100644
--- a/discretehelpers/set_part_comp/methods/set_equal/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _pair
 from ...ex import *
 
 
 def set_equal(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_comp(a, b), SetEqualComplementsError)
     if self.are_equal(a, b):
         return  # nothing to do
-- 
2.43.0


From 31fdd614f9daca06e78a8da24bf4bd4d02d8d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:07 +0000
Subject: [PATCH 10/24] fix: SetPartComp closes the complement pairs given on
 construction

---
 discretehelpers/set_part_comp/__init__.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index d12394c..0814572 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -22,20 +22,13 @@ class SetPartComp():
         else:
             self.equal_part = SetPart([], 'Z')
 
+        self.comp_pairs = set()
+
         if have(comp_pairs):
-            canonical_comp_pairs = set()
             for a, b in comp_pairs:
-                canonical_a = min(self.equal_part.element_to_block(a))
-                canonical_b = min(self.equal_part.element_to_block(b))
-                canonical_pair = tuple(sorted([canonical_a, canonical_b]))
-                canonical_comp_pairs.add(canonical_pair)
-            self.comp_pairs = canonical_comp_pairs
-        else:
-            self.comp_pairs = set()
-
-        if have(equal_part) and have(comp_pairs):  # check if arguments do not contradict each other
-            for pair in self.comp_pairs:
-                if self.equal_part.pair_in_same_block(*pair):
+                try:
+                    self.set_comp(a, b)  # makes elements equal, if they have a common complement
+                except SetCompEqualsError:
                     raise PartCompMismatchError
 
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
-- 
2.43.0


From b8a54788304c28dd8b6845b69b0379b103b4571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:48 +0000
Subject: [PATCH 11/24] fix: an interrupt while a Boolean matrix is filled does
 not spoil the result

---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 2 +-
 discretehelpers/perm/metributes/schoute_perm/__init__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 90217d8..5f7079d 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -29,7 +29,7 @@ def filtrated_boolf(self, small_atomvals):
 
     long_matrix = np.zeros([small_valency, big_length], dtype=bool)
     for m in range(small_valency):
-        long_matrix[m, :] = patterns[m]
+        long_matrix[m, :] = patterns[m].vector  # list, because NumPy swallows exceptions raised in `Binv`
     long_sequence = [Binv(long_matrix[:, n]).intval for n in range(big_length)]  # sequence of length `big_length` with (repeating) values in `range(small_length)`
 
     for big_spotkey, small_spotkey in enumerate(long_sequence):
diff --git a/discretehelpers/perm/metributes/schoute_perm/__init__.py b/discretehelpers/perm/metributes/schoute_perm/__init__.py
index 58737c1..07b8440 100644
--- a/discretehelpers/perm/metributes/schoute_perm/__init__.py
+++ b/discretehelpers/perm/metributes/schoute_perm/__init__.py
@@ -16,7 +16,7 @@ def schoute_perm(self):
 
     long_matrix = np.zeros([minor, major], dtype=bool)
     for rownum, signed_int in enumerate(self.inverse.sequence()):
-        long_matrix[rownum, :] = make_atompattern(signed_int, minor)
+        long_matrix[rownum, :] = make_atompattern(signed_int, minor).vector  # list, because NumPy swallows exceptions raised in `Binv`
 
     long_sequence = []
     for colnum in range(major):
-- 
2.43.0


From d92731c6b6fd140aa4cb4a843465a5d7f04ea07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:23 +0000
Subject: [PATCH 12/24] fix: signed permutations with trailing zero signs are
 equal to the same one without

---
 discretehelpers/sig_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..6ccd3dc 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -105,7 +105,7 @@ class SigPerm(Perm):
 
         self.length = max(raw_binv.required_length, self.perm.length)
         missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv((raw_binv.vector + [False] * missing_length)[:self.length])
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From b09f0ea667424f3701d312c8477801ef9dab4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:26 +0000
Subject: [PATCH 13/24] fix: the partition of a clan does not depend on the
 hash seed for functions with gaps in their atoms

---
 .../boolf/methods/_ec/ec_clan_partitioned/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
index 2e18426..e315650 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
@@ -12,7 +12,7 @@ def ec_clan_partitioned(self):
     set_of_perm_tuples = set()
     perm_sum = 0
     for boolf in negperm_set:
-        perm = boolf.ec_faction()
+        perm = boolf.ec_faction(self.adicity)
         perm_tuple = tuple(sorted(perm.block_labels.values()))
         if perm_tuple not in set_of_perm_tuples:
             set_of_perm_tuples.add(perm_tuple)
-- 
2.43.0


From 484ed6ea6338cfa68a4c05d07508fbef261c569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:34 +0000
Subject: [PATCH 14/24] fix: subdict keeps the order of the original

---
 discretehelpers/a/subdict/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/subdict/__init__.py b/discretehelpers/a/subdict/__init__.py
index 6e9f684..02ce3f5 100644
--- a/discretehelpers/a/subdict/__init__.py
+++ b/discretehelpers/a/subdict/__init__.py
@@ -11,8 +11,9 @@ def subdict(original, drop=None, fresh=None):
     if have(fresh):
         kept_keys = kept_keys.difference(set(fresh.keys()))
 
-    for key in kept_keys:
-        result[key] = original[key]
+    for key in original:
+        if key in kept_keys:
+            result[key] = original[key]
 
     for key, val in fresh.items():
         result[key] = val
-- 
2.43.0


From 8e7dfde0fdd94236b9056c7c17d60bf3b6f2a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:08 +0000
Subject: [PATCH 15/24] fix: Answer 0 for the right rank of the neutral
 permutation

---
 discretehelpers/perm/metributes/ranks/right_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/perm/metributes/ranks/right_rank.py b/discretehelpers/perm/metributes/ranks/right_rank.py
index 9dde9d9..c0c5f6c 100644
--- a/discretehelpers/perm/metributes/ranks/right_rank.py
+++ b/discretehelpers/perm/metributes/ranks/right_rank.py
@@ -15,7 +15,7 @@ def right_rank(self):
     true_except(not have(self.perilen), PermNotFiniteError)
 
     if self.neutral:
-        result = 0
+        return 0
 
     ric = right_inversion_count(self.sequence())
     ric_reflected = ric[::-1]
-- 
2.43.0


From 93b3e0fdacb27ab4a8747b9943baf98541be600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:57 +0000
Subject: [PATCH 16/24] fix: Make bitwise_gt of Boolean functions strict

---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From b1d9a6d04ad4b145258d3c980d5f23ae0705c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:02 +0000
Subject: [PATCH 17/24] fix: Filtrate a Boolean function the same way for
 arguments in any order

---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 5f7079d..48aa793 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -11,7 +11,8 @@ def filtrated_boolf(self, small_atomvals):
 
     big_atomvals = self.atomvals
     true_except(set(small_atomvals).issubset(big_atomvals), AtomvalsMismatchError)
-    
+    small_atomvals = sorted(small_atomvals)  # `Boolf` would read a table with unsorted atomvals in another way
+
     big_valency = self.valency
     big_length = 2 ** big_valency
     big_truthtable = self.root
-- 
2.43.0


From 094170efedb05b31635239190a047e012eb5a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:02 +0000
Subject: [PATCH 18/24] fix: Read fullspots with unsorted atomvals like the
 corresponding truth table

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..c73a988 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -11,7 +11,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -33,10 +32,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From e22036b492aca9683f9c0bb39a7fd79f3eace20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:04 +0000
Subject: [PATCH 19/24] fix: Measure the binary length of big numbers without
 floats

---
 discretehelpers/binv/a/binary_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From c32244310a2556587641de779efd73868d5233e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:04 +0000
Subject: [PATCH 20/24] fix: Compute binary logarithms and powers of two
 without floats

---
 discretehelpers/a/_log/log_ceil/__init__.py   | 3 +--
 discretehelpers/a/_log/log_floor/__init__.py  | 3 +--
 discretehelpers/a/_log/log_int/__init__.py    | 7 +++----
 discretehelpers/a/is_power_of_two/__init__.py | 7 +------
 4 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..db38493 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,4 +1,3 @@
-from math import log2
 from discretehelpers.a import is_natural, true_except
 from discretehelpers.ex import ArgValueError
 
@@ -10,8 +9,8 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
+    result = int(x).bit_length() - 1
+    if x == 1 << result:
+        return result
     else:
         raise ArgValueError('not a power of two')
diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..556cc54 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,4 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    return n == 1 << int(n).bit_length() - 1
-- 
2.43.0


From 5d5cfe1871da12e9edaecbb6b93420747d8fa953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:42 +0000
Subject: [PATCH 21/24] fix: Let binary vectors of a demanded length also be
 empty or without ones

---
 discretehelpers/binv/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..b829b6e 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -56,7 +56,7 @@ class Binv(object):
                     true_except(length >= binary_length(intval), LengthError)
                 else:
                     length = max(minimal_length, binary_length(intval))
-                vector = "{0:b}".format(intval).zfill(length)[::-1]
+                vector = "{0:b}".format(intval).zfill(length)[::-1][:length]
 
         elif case_exposet:
 
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max(minimal_length, max(exposet, default=-1) + 1)
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From d671de5e3ba3e97cefba39d1b930ac24ed7e1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:03 +0000
Subject: [PATCH 22/24] fix: Keep complement pairs when a statement is refused
 because of labels

A relation built from a set partition with labels removed the old complement
pairs before merging blocks. When the labels contradicted each other, the
statement was refused, but the pairs were already gone.
---
 discretehelpers/set_part_comp/helpers.py                  | 8 ++++++++
 .../set_part_comp/methods/set_comp/__init__.py            | 4 +++-
 .../set_part_comp/methods/set_equal/__init__.py           | 4 +++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part_comp/helpers.py b/discretehelpers/set_part_comp/helpers.py
index cab61ef..dad2c56 100644
--- a/discretehelpers/set_part_comp/helpers.py
+++ b/discretehelpers/set_part_comp/helpers.py
@@ -1,4 +1,5 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.methods.block_labels.ex import LabelContradictionError
 
 
 def _index(self, a):  # index of the block or None if singleton
@@ -25,3 +26,10 @@ def _other_element_in_pair(pair, element):
 
 def _pair(a, b):
     return tuple(sorted([a, b]))
+
+
+def _refuse_label_contradictions(self, *pairs):  # before anything is changed
+    for a, b in pairs:
+        label_a = self.equal_part.get_label_from_element(a)
+        label_b = self.equal_part.get_label_from_element(b)
+        true_except(not have(label_a) or not have(label_b), LabelContradictionError)
diff --git a/discretehelpers/set_part_comp/methods/set_comp/__init__.py b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
index 868ab2c..3d2c43b 100644
--- a/discretehelpers/set_part_comp/methods/set_comp/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
@@ -1,7 +1,7 @@
 from discretehelpers.a import true_except, have
 from discretehelpers.set_part.ex import NotInDomainError
 
-from ...helpers import _representative, _representatives, _pair
+from ...helpers import _representative, _representatives, _pair, _refuse_label_contradictions
 from ...ex import *
 
 
@@ -29,6 +29,7 @@ def _set_comp_no_comp(self, a, b):
 
 
 def _set_comp_first_comp(self, a, b, a_comp):
+    _refuse_label_contradictions(self, (a_comp, b))
     old_a_repr = _representative(self, a)
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))  # remove old complement pair
     self.equal_part.merge_pair(a_comp, b)  # both are complements of `a`, thus equal
@@ -37,6 +38,7 @@ def _set_comp_first_comp(self, a, b, a_comp):
 
 
 def _set_comp_both_comp(self, a, b, a_comp, b_comp):
+    _refuse_label_contradictions(self, (a, b_comp), (b, a_comp))
     old_a_repr, old_b_repr = _representatives(self, a, b)
 
     # remove old complement pairs
diff --git a/discretehelpers/set_part_comp/methods/set_equal/__init__.py b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
index 481859b..2089d7b 100644
--- a/discretehelpers/set_part_comp/methods/set_equal/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
@@ -1,7 +1,7 @@
 from discretehelpers.a import true_except, have
 from discretehelpers.set_part.ex import NotInDomainError
 
-from ...helpers import _representative, _representatives, _pair
+from ...helpers import _representative, _representatives, _pair, _refuse_label_contradictions
 from ...ex import *
 
 
@@ -28,6 +28,7 @@ def _set_equal_no_comp(self, a, b):
 
 
 def _set_equal_first_comp(self, a, b, a_comp):
+    _refuse_label_contradictions(self, (a, b))
     old_a_repr = _representative(self, a)
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))  # remove old complement pair
     self.equal_part.merge_pair(a, b)  # merge blocks
@@ -37,6 +38,7 @@ def _set_equal_first_comp(self, a, b, a_comp):
 
 
 def _set_equal_both_comp(self, a, b, a_comp, b_comp):
+    _refuse_label_contradictions(self, (a, b), (a_comp, b_comp))
     old_a_repr, old_b_repr = _representatives(self, a, b)
 
     # remove old complement pairs
-- 
2.43.0


From 5907198d7aa9b58986c3867bfc07a1cf100691b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:13 +0000
Subject: [PATCH 23/24] fix: Close the file when an append fails

---
 discretehelpers/a/misc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/a/misc.py b/discretehelpers/a/misc.py
index 4622e21..56ce713 100644
--- a/discretehelpers/a/misc.py
+++ b/discretehelpers/a/misc.py
@@ -1,4 +1,3 @@
 def file_write(path, content):
-    f = open(path, 'a+')
-    f.write(content)
-    f.close()
+    with open(path, 'a+') as f:
+        f.write(content)
-- 
2.43.0


From 6628d5639e99ecb4acc58aba913c5576293a2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:27 +0000
Subject: [PATCH 24/24] fix: Let a segment keep its own copy of its sign vector

---
 .../boolf/methods/find_segments/a/classes/segment/__init__.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/find_segments/a/classes/segment/__init__.py b/discretehelpers/boolf/methods/find_segments/a/classes/segment/__init__.py
index 5c73119..980e03b 100644
--- a/discretehelpers/boolf/methods/find_segments/a/classes/segment/__init__.py
+++ b/discretehelpers/boolf/methods/find_segments/a/classes/segment/__init__.py
@@ -14,7 +14,7 @@ class Segment(object):
         self.zero_atomkeys = [key for key, val in enumerate(vector) if val == 0]
         self.sign_atomkeys = [key for key, val in enumerate(vector) if val != 0]
         self.dimension = len(self.zero_atomkeys)
-        self.vector = vector
+        self.vector = list(vector)
 
         # find inferiors
         inferior_vectors = defaultdict(list)
-- 
2.43.0

