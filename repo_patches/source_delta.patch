From bda66996baa9d15a8145afc0db560bc4fc8ed85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 01/55] fix: levenshtein_distance looked for a lone differing
 character outside the trimmed window

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 94a1b78ed1fabb6b75eca9772ed7e1a859d8012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 02/55] fix: levenshtein distances truncated characters outside
 the BMP to 16 bits

---
 cfog/metrics/levenshtein.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..b08dc4e 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef unsigned int charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
-- 
2.43.0


From f94f0f77429d2f41298c886b2e58c53cfcb6b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 03/55] fix: limited_levenshtein_distance leaked its buffers on
 early termination

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index b08dc4e..f4d22b8 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From e684dae6078bcdfa3041e82cdeb8d3d4f0b84015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 04/55] fix: levenshtein distances dereferenced NULL when out
 of memory

---
 cfog/metrics/levenshtein.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index f4d22b8..3336ed5 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -77,6 +77,12 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes == NULL or vector == NULL:
+        free(codes)
+        free(vector)
+
+        raise MemoryError
+
     cdef unsigned int i = 0
 
     while i < LB:
@@ -195,6 +201,12 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes == NULL or vector == NULL:
+        free(codes)
+        free(vector)
+
+        raise MemoryError
+
     cdef unsigned int i = 0
 
     while i < max_distance:
-- 
2.43.0


From a32ac02b7775f5e38173911eee721a21d50bf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 05/55] fix: pairwise_leader crashed when a cluster went over
 max_size

---
 fog/clustering/pairwise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..2d3c84c 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -105,11 +106,12 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                     cluster.append(B)
 
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
                 visited.add(j)
+                members.append(j)
 
         if cluster is not None and len(cluster) >= min_size:
             yield cluster
-- 
2.43.0


From a71c424ac96f80fec3e48ca1ad3a654455258251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 06/55] fix: pairwise_fuzzy_clusters yielded different clusters
 when run in parallel

---
 fog/clustering/pairwise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 2d3c84c..e2fed4a 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -245,10 +245,15 @@ def pairwise_fuzzy_clusters(data, similarity=None, distance=None, radius=None,
 
         # Pool
         with Pool(processes=processes) as pool:
+            pairs = []
+
             for matches in pool.imap(pairwise_worker, pool_iter):
-                for i, j in matches:
-                    graph[i].append(j)
-                    graph[j].append(i)
+                pairs.extend(matches)
+
+        # NOTE: sorting so the graph is built in the same order as above
+        for i, j in sorted(pairs):
+            graph[i].append(j)
+            graph[j].append(i)
 
     # Building clusters
     visited = set()
-- 
2.43.0


From 742b84922d07464b927d31e54390abafdfff36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 07/55] fix: key_collision put an item several times in a
 bucket when its keys repeat

---
 fog/clustering/key_collision.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..ffc3496 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,9 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
-                if k:
-                    buckets[k].append(item)
+            for k in dict.fromkeys(k for k in ks if k):
+                buckets[k].append(item)
 
     # Merging clusters
     if merge and key is None:
-- 
2.43.0


From 94c4fe490dd06fe120e7dfe102f0d2774a76e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 08/55] fix: key_collision ignored min_size & max_size when
 merging buckets

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index ffc3496..453be2b 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -75,7 +75,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From afdf34def72e561582f6b283649af4bb8b0b55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 09/55] fix: passjoin fuzzy clusters repeated items when a pair
 was found more than once

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From f0ffdfd4443ede4f661337dfbf973be3f97f58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 10/55] fix: multipass sorted neighborhood only ran its first
 pass when given an iterator

---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..61eeb9f 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data once per key
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -197,6 +201,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data once per key
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 159c61fdee3a8556bd8f80eeeff3a5b8bd7bddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 11/55] fix: adaptive_sorted_neighborhood could enlarge its
 window out of bounds or forever

---
 fog/clustering/sorted_neighborhood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 61eeb9f..5b212a3 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -123,11 +123,14 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while first < last < n and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
             last = first + w - 1
 
+        # The window cannot be enlarged past the last record
+        last = min(last, n - 1)
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From 275aa9ab98e60715d1e8dc4b07d8c84e0d37cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 12/55] fix: quickjoin missed pairs across partitions when
 given a similarity function

---
 fog/clustering/quickjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..a87665d 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,8 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        distance = lambda x, y: 1.0 - similarity(x, y)
+        radius = 1.0 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From e7b5f426c249aeb44ee308444f5790950f0afae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 13/55] fix: quickjoin crashed on empty data when solving
 blocks with a VPTree

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index a87665d..24964f1 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From 72d07308aec3d69f81b495651a8e03778462642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 14/55] fix: quickjoin never terminated on data it cannot
 split, such as duplicates

---
 fog/clustering/quickjoin.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 24964f1..50f0a79 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -269,6 +269,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
 
                 L, G, Lw, Gw = partition(S, distance, p1, radius, rho)
 
+                # Some data cannot be split further, e.g. duplicates
+                if len(L) == N or len(G) == N:
+                    yield (S, None)
+                    continue
+
                 # Recursion
                 stack.append((G, None))
                 stack.append((L, None))
@@ -280,11 +285,10 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 N2 = len(S2)
                 N = N1 + N2
 
-                if N <= block_size:
-
-                    if N1 == 0 or N2 == 0:
-                        continue
+                if N1 == 0 or N2 == 0:
+                    continue
 
+                if N <= block_size:
                     yield (S1, S2)
                     continue
 
@@ -303,10 +307,14 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 L1, G1, Lw1, Gw1 = partition(S1, distance, p1, radius, rho)
                 L2, G2, Lw2, Gw2 = partition(S2, distance, p1, radius, rho)
 
-                stack.append((L1, L2))
-                stack.append((G1, G2))
-                stack.append((Lw1, Gw2))
-                stack.append((Gw1, Lw2))
+                subproblems = [(L1, L2), (G1, G2), (Lw1, Gw2), (Gw1, Lw2)]
+
+                # Some data cannot be split further, e.g. duplicates
+                if any(len(T1) + len(T2) == N for T1, T2 in subproblems):
+                    yield (S1, S2)
+                    continue
+
+                stack.extend(subproblems)
 
     # Iterator performing bruteforce distance computation over found blocks
     def clustering():
-- 
2.43.0


From 10c62849d140b46f123a8826685d9ccbf8900c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 15/55] fix: vp_tree clustering crashed on less than two items

---
 fog/clustering/vp_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..f3809e3 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,13 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: a tree cannot be built from less than two items
+    if len(data) < 2:
+        if data and min_size <= 1 <= max_size:
+            yield data[:]
+
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From 6e2353c5e440864b804e1dd4e704e05d965ce52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 16/55] fix: ppjoin mixed up its similarity threshold and token
 positions and missed pairs

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,14 +389,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From 1f1fbc2e4de79b422ee2a2e264aff1e027dc2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 17/55] fix: ppjoin crashed with its default token ordering
 when given tokenized records

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..ccd38c1 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From afe890558fdbcc4fd8a88bdd018d8e2b5cdc19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 18/55] fix: ppjoin crashed on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index ccd38c1..5a4467b 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # An empty record has no token to share with any other one
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From faaf3f6669952cc5fc9666435b71db01293fb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 19/55] fix: SuperMinHash truncated its signatures and found
 any two large sets identical

---
 fog/lsh/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..65d597f 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -192,7 +192,7 @@ class SuperMinHash(object):
 
                 j += 1
 
-        return [int(i) for i in h]
+        return h
 
 
 class LSBMinHash(object):
-- 
2.43.0


From 49c73f3dace2df70b899da8199cc1d531a22af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 20/55] fix: MinHash with numpy overflowed 32 bits and crashed
 when taking the modulo

---
 fog/lsh/minhash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index 65d597f..b2d32f7 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,15 +102,16 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            # NOTE: a * token + b fits in 64 bits, but not in 32
+            signature = np.repeat(list(tokens), self.h).astype(np.uint64, copy=False)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
             signature *= self.A
             signature += self.B
-            signature %= NEXT_PRIME
+            signature %= np.uint64(NEXT_PRIME)
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), MAX_UINT32).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From 25c3b32dac9c59aab0bd9f699a58c7a530f2b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 21/55] fix: MinHash with numpy reseeded the global numpy rng

---
 fog/lsh/minhash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index b2d32f7..bee5274 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -66,10 +66,10 @@ class MinHash(object):
         if use_numpy:
             assert np is not None, 'numpy is not installed'
 
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
-            self.A = np.random.randint(1, MAX_UINT32, size=h, dtype='uint32')
-            self.B = np.random.randint(0, MAX_UINT32, size=h, dtype='uint32')
+            self.A = rng.randint(1, MAX_UINT32, size=h, dtype='uint32')
+            self.B = rng.randint(0, MAX_UINT32, size=h, dtype='uint32')
 
             self.numpy = True
         else:
-- 
2.43.0


From 68c94f5819ac093a28408a2f67432637e6e9120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 22/55] fix: minhash clustering crashed on radiuses its
 signature size cannot reach

---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..4f3e6a2 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -88,7 +88,7 @@ def guess_bands(h, threshold):
 
         bands += 1
 
-    return bands
+    return min(bands, h)
 
 
 def minhash(data, h=256, key=None, radius=0.8, bands=None, use_numpy=False,
-- 
2.43.0


From 03c14d29a976d30ec614803492f6160dc488cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 23/55] fix: nn_descent crashed or never terminated when k is
 not less than the number of items

---
 fog/clustering/nn_descent.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..6dfe47f 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,17 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # An item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +281,17 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # An item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From 15b2f7b7df0d109e90c80d0068ba7616bb786790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 24/55] fix: nn_descent_full never terminated with a delta of 0

---
 fog/clustering/nn_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 6dfe47f..3d23c07 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -303,7 +303,7 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
     c = NK
 
-    while c >= delta * NK:
+    while c != 0 and c >= delta * NK:
         old = []
         new = []
 
-- 
2.43.0


From 1cbfe0fc148af06982f395afc739920c83212f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 25/55] fix: nn_descent could hold the same nearest neighbor
 several times and lose others

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 3d23c07..72f7a26 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -43,6 +43,14 @@ def sample(rng, N, k, i):
     return list(S)
 
 
+def is_neighbor(neighbors, j):
+    """
+    Returns whether the j index is already part of the given neighbors.
+
+    """
+    return any(neighbor[1] == j for neighbor in neighbors)
+
+
 def reverse(B):
     """
     Returns the list of in-neighbors from the list of out-neighbors.
@@ -153,7 +161,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not is_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -347,11 +355,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -362,11 +370,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not is_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not is_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From 40803b42cdeb8d9e4909f7d3ca52ae2fce56302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:46 +0000
Subject: [PATCH 26/55] fix: damerau_levenshtein_2d_blocks crashed on the empty
 string

---
 fog/key/levenshtein.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..2b4daeb 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -217,9 +217,9 @@ def levenshtein_2d_blocks(string, transpositions=False,
             h1 = h - 1
 
             return basic + (
-                flag1 + string[:h1] + string[h],
-                flag2 + string[h1] + string[h + 1:h * 2],
-                flag3 + string[h * 2 - 1] + string[h * 2 + 1:]
+                flag1 + string[:h1] + string[h:h + 1],
+                flag2 + string[h1:h] + string[h + 1:h * 2],
+                flag3 + string[h * 2 - 1:h * 2] + string[h * 2 + 1:]
             )
 
         return basic
-- 
2.43.0


From b1394968eefacde76c5bce7a5356d0c61e1e6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:46 +0000
Subject: [PATCH 27/55] fix: levenshtein_2d_blocks missed pairs one insertion
 and one deletion apart

---
 fog/key/levenshtein.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 2b4daeb..ef74d32 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,6 +213,13 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
+        # An insertion and a deletion can shift the middle by one character
+        if h > 0:
+            basic += (
+                flag2 + string[h - 1:h * 2 - 1],
+                flag2 + string[h + 1:h * 2 + 1]
+            )
+
         if transpositions:
             h1 = h - 1
 
-- 
2.43.0


From 1affa2c0a7c6bfabad331eb0de9b1e57ee52ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:46 +0000
Subject: [PATCH 28/55] fix: damerau_levenshtein_2d_blocks missed pairs two
 transpositions apart

---
 fog/key/levenshtein.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index ef74d32..584df07 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -251,7 +251,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
         h1 = n // 3
         h = h1 + 1
 
-        return (
+        basic = (
             flag1 + string[:h],
             flag2 + string[h:h + h1],
             flag3 + string[h + h1:],
@@ -263,5 +263,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h1 * 2:]
         )
 
+        # Two transpositions can alter every block above
+        if transpositions and h1 > 0:
+            return basic + (flag1 + string[:h1 - 1] + string[h1], )
+
+        return basic
+
 
 damerau_levenshtein_2d_blocks = partial(levenshtein_2d_blocks, transpositions=True)
-- 
2.43.0


From d530294c43a0f5dd569522524e13ccb917dd8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 29/55] fix: fingerprint lost letters transliterated in upper
 case

---
 fog/tokenizers/fingerprint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..6c3ab56 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -104,7 +104,8 @@ class FingerprintTokenizer(object):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # NOTE: some characters are transliterated with a capital letter
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -157,7 +158,8 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # NOTE: some characters are transliterated with a capital letter
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From 3495cc21e881044123961c74fd3cda04fe391154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 30/55] fix: cologne lost letters transliterated in lower case

---
 fog/phonetics/cologne.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..8be6cd0 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -84,7 +84,8 @@ def cologne(name):
     for p, r in GERMANIC_SUBSTITUTIONS:
         name = name.replace(p, r)
 
-    name = unidecode(name)
+    # NOTE: some characters are transliterated with lowercase letters
+    name = unidecode(name).upper()
     name = re.sub(ALPHA_RE, '', name)
 
     code = []
-- 
2.43.0


From f8a7c6450cffd011b4e6b6d6e222b08987ed9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 31/55] fix: cologne did not squeeze a repeated leading code

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 8be6cd0..ebcb38e 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -122,6 +122,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From e085995a9d6da5c643421ca2ebe132bf1897af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 32/55] fix: rusalka crashed on names its rules erase

---
 fog/phonetics/rusalka.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..069502d 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,10 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    # Some names are fully erased by the rules
+    if not name:
+        return name
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From d49135471a6483866d3d5ac2ae811dc88436d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 33/55] fix: squeeze did not drop consecutive newlines

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From 7758db7f2dfd50fc5c592ca6ba042de3cbace97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 34/55] fix: the word tokenizer dropped what follows the last
 point of acronym-like words

---
 fog/tokenizers/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..6020e19 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -502,8 +502,9 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
-                        yield ('word' if t != '.' else 'punct', t)
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if t:
+                            yield ('word' if t != '.' else 'punct', t)
 
                 i = j
                 continue
-- 
2.43.0


From 82655c422237966366e9ce46340d9b4be8c08808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 35/55] fix: the word tokenizer emitted empty tokens when
 splitting hyphenated unions

---
 fog/tokenizers/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 6020e19..d103696 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -576,12 +576,13 @@ class WordTokenizer(object):
 
                     if hyphens == 2 and '-t-' in before:
                         for t in before.split('-'):
-                            yield (token_type, t)
+                            if t:
+                                yield (token_type, t)
 
                     elif hyphens == 1:
                         a, b = before.split('-')
 
-                        if b in FRENCH_UNION_TARGETS:
+                        if a and b in FRENCH_UNION_TARGETS:
                             yield (token_type, a)
                             yield (token_type, b)
 
-- 
2.43.0


From 0d2a948f67ce88fdb8005958acee48dd6d8af548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 36/55] fix: the word tokenizer tagged a dash without digits as
 a number

---
 fog/tokenizers/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index d103696..f77a673 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -442,6 +442,10 @@ class WordTokenizer(object):
                 if already_consumed and j > i + 1 and string[j - 1] in DECIMALS:
                     j -= 1
 
+                # A dash without digits is not a number
+                if already_consumed and string[i:j] == '-':
+                    token_type = 'punct'
+
             # Alphanumerical token
             can_be_acronym = False
 
-- 
2.43.0


From c7a1e0128b89a185bc332110176cebc93de42ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 37/55] fix: monopartite_projection crashed when nodes cannot
 be compared

---
 fog/graph/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..5782c51 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -137,6 +137,9 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
     # Version relying on graph traversals
     if use_topology:
 
+        # NOTE: nodes are not necessarily comparable
+        order = {node: i for i, node in enumerate(vectors)}
+
         for n1, (norm1, vector1) in vectors.items():
             for np in bipartite.neighbors(n1):
                 for n2 in bipartite.neighbors(np):
@@ -146,7 +149,7 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     # the same as cutting edges from n1 to np after you
                     # traversed them.
                     # We also avoid (n1, n1) since n1 is obv. a neighbor of np.
-                    if n1 >= n2:
+                    if order[n1] >= order[n2]:
                         continue
 
                     # NOTE: if a threshold is given, this condition does
-- 
2.43.0


From c23ac10e9bc7fa36cf46756ed95da1793205cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 38/55] fix: monopartite_projection crashed on nodes having
 only null weights

---
 fog/graph/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 5782c51..6325608 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -149,7 +149,8 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     # the same as cutting edges from n1 to np after you
                     # traversed them.
                     # We also avoid (n1, n1) since n1 is obv. a neighbor of np.
-                    if order[n1] >= order[n2]:
+                    # Finally, n2 has no vector if its norm is 0.
+                    if n2 not in order or order[n1] >= order[n2]:
                         continue
 
                     # NOTE: if a threshold is given, this condition does
-- 
2.43.0


From 502bd3bd44a9d12e7b11ee72343d7b015cc2e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 39/55] fix: floatsam_sparsification never terminated when no
 component can drift away

---
 fog/graph/sparsification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..65207af 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -52,6 +52,8 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
     def edge_filter(u, v, attr):
         return attr[weight] >= threshold
 
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
+
     if max_drifter_size is None:
         max_drifter_size = int(math.log(len(graph)))
 
@@ -64,6 +66,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         if c is not None and c >= max_drifter_size:
             break
 
+        # There is no edge left to trim
+        if threshold > max_weight:
+            break
+
     if remove_edges:
         to_remove = []
         for u, v, w in graph.edges(data=weight):
-- 
2.43.0


From 4c16dbd0f2f9412d0e6bb5344447637d7ef712d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 40/55] fix: hashjoin only joined the first item when given
 iterators

---
 fog/join/hashjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..1985507 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # We need to iterate over B once per item of A
+    if type(B) is not list:
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
-- 
2.43.0


From 50d693843a84ec9a1bcec8ab8b91f2237a31bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 41/55] fix: hashjoin only joined the first item when keys are
 given as iterators

---
 fog/join/hashjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 1985507..3055a22 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -67,12 +67,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & set(key_b)) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From 9a14eeb7ee88ef652536a614e19cb455656178e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 42/55] fix: fog split -t accumulated the values of a row in
 its lines

---
 fog/cli/split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..2c4d9e7 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -31,9 +31,8 @@ def split_action(namespace):
 
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From ab3c562a847b56559b6b64d2e256843e18f2e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 43/55] fix: fog split -t wrote shorter lines for empty cells

---
 fog/cli/split.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index 2c4d9e7..247c856 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -25,10 +25,6 @@ def split_action(namespace):
     for line in reader:
         values = line[position]
 
-        if len(values) == 0:
-            writer.writerow(line)
-            continue
-
         for value in values.split(namespace.separator):
 
             if namespace.target_column is not None:
-- 
2.43.0


From 3f67eb7e8bf2dbfe5fe3e08018fd70a98dfbe007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 44/55] fix: fog cluster wrote invalid toml for values holding
 backslashes or control characters

---
 fog/cli/reporting/toml.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..2fab24f 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -6,8 +6,19 @@
 #
 
 
+import re
+
+ESCAPED_RE = re.compile(r'["\\\x00-\x1f\x7f]')
+ESCAPES = {'"': '\\"', '\\': '\\\\', '\n': '\\n'}
+
+
+def escape_char(match):
+    c = match.group(0)
+    return ESCAPES.get(c) or '\\u%04x' % ord(c)
+
+
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    return ESCAPED_RE.sub(escape_char, string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From 4ac0b1b5170cbc9dc2b1505fc9b95130fdc72aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 45/55] fix: fog cluster did not escape values in html reports

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From 959dce91f63cea18babf6f1c549bc2f93b9360e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 46/55] fix: fog cli altered carriage returns found in cells

---
 fog/cli/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index c3b9321..6ef7d28 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -12,6 +12,10 @@ def custom_reader(f, target_header):
     # dialect = sniffer.sniff(f.read(1024))
     # f.seek(0)
 
+    # NOTE: newlines found in cells should be left untouched
+    if hasattr(f, 'reconfigure'):
+        f.reconfigure(newline='')
+
     reader = csv.reader(f)
 
     headers = next(reader, None)
-- 
2.43.0


From 33f164380d8740d81a77df35b089864b5ee00d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:52 +0000
Subject: [PATCH 47/55] fix: parallel blocking yields the same fuzzy clusters
 whatever worker finishes first

---
 fog/clustering/blocking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index 389b1db..14fe065 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -137,7 +137,7 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
             )
 
             with Pool(processes=processes) as pool:
-                for pairs in pool.imap_unordered(block_worker, pool_iter):
+                for pairs in pool.imap(block_worker, pool_iter):
                     yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From 9826c7a8d58bea9bd4a84a5f021f2770e16cbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:52 +0000
Subject: [PATCH 48/55] fix: parallel quickjoin yields the same fuzzy clusters
 whatever worker finishes first

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 50f0a79..df3eb7c 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -336,7 +336,7 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 for S1, S2 in blocks()
             )
 
-            for pairs in pool.imap_unordered(worker, pool_iter):
+            for pairs in pool.imap(worker, pool_iter):
                 yield from pairs
 
     yield from clusters_from_pairs(
-- 
2.43.0


From 7d307af0799613513634b4b6d37a07f5c977ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:26 +0000
Subject: [PATCH 49/55] fix: best_matching_macro_average depended on the order
 of items when candidates have the same F1

---
 fog/evaluation/best_matching.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fog/evaluation/best_matching.py b/fog/evaluation/best_matching.py
index 5b9905b..5520b1e 100644
--- a/fog/evaluation/best_matching.py
+++ b/fog/evaluation/best_matching.py
@@ -104,10 +104,10 @@ def best_matching_macro_average(
             candidates[candidate_cluster_index] += 1
             cluster_size += 1
 
-        best_f1 = -1.0
         best = None
 
-        # Finding a matching cluster that maximizes F1 score
+        # Finding a matching cluster that maximizes F1 score, then precision
+        # NOTE: so that the order of clusters & items does not matter
         for matching_cluster_index, true_positives in candidates.items():
             matching_cluster_size = predicted_cluster_sizes[matching_cluster_index]
 
@@ -116,10 +116,9 @@ def best_matching_macro_average(
 
             precision = true_positives / (true_positives + false_positives)
             recall = true_positives / (true_positives + false_negatives)
-            f1 = 2 * precision * recall / (precision + recall)
+            f1 = 2 * true_positives / (matching_cluster_size + cluster_size)
 
-            if f1 > best_f1:
-                best_f1 = f1
+            if best is None or (f1, precision) > (best[2], best[0]):
                 best = (precision, recall, f1)
 
         assert best is not None
-- 
2.43.0


From 79209f82f0c2d6a79fa23e0335795c7ef02debc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:47 +0000
Subject: [PATCH 50/55] fix: SuperMinHash gave wrong signatures when one
 instance was used by several threads

---
 fog/lsh/minhash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index bee5274..2bf4db6 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -139,7 +139,6 @@ class SuperMinHash(object):
 
     def __init__(self, h=256):
         self.h = h
-        self.rng = Random()
 
     def create_signature(self, sequence):
 
@@ -149,7 +148,9 @@ class SuperMinHash(object):
             tokens = set(crc32(token) for token in sequence)
 
         m = self.h
-        rng = self.rng
+
+        # NOTE: not kept on the instance because threads may share it
+        rng = Random()
 
         h = [m + 1] * m
         p = [0] * m
-- 
2.43.0


From dd56835b0adbcab570cfd55878040d0709e12ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:50 +0000
Subject: [PATCH 51/55] fix: parallel clustering could hang when terminating
 its workers

Leaving a multiprocessing pool's context terminates its workers. One of them
may be killed while it holds the lock of the result queue, in which case the
pool's own threads wait forever for it.
---
 fog/clustering/blocking.py  | 12 ++++++-----
 fog/clustering/pairwise.py  | 16 +++++++--------
 fog/clustering/quickjoin.py | 18 ++++++++--------
 fog/clustering/utils.py     | 41 +++++++++++++++++++++++++++++++++++++
 4 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index 14fe065..d294b53 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -7,8 +7,11 @@
 #
 import dill
 from collections import defaultdict
-from multiprocessing import Pool
-from fog.clustering.utils import make_similarity_function, clusters_from_pairs
+from fog.clustering.utils import (
+    clusters_from_pairs,
+    imap_in_pool,
+    make_similarity_function
+)
 
 # TODO: max_block_size to avoid ngrams with high DF
 # TODO: worker using a VPTree
@@ -136,9 +139,8 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
                 if len(bucket) > 1
             )
 
-            with Pool(processes=processes) as pool:
-                for pairs in pool.imap(block_worker, pool_iter):
-                    yield from pairs
+            for pairs in imap_in_pool(block_worker, pool_iter, processes):
+                yield from pairs
 
     yield from clusters_from_pairs(
         clustering(),
diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index e2fed4a..3497bfb 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -7,10 +7,10 @@
 #
 import dill
 from collections import defaultdict
-from multiprocessing import Pool
 from phylactery import UnionFind
 
 from fog.clustering.utils import (
+    imap_in_pool,
     make_similarity_function,
     upper_triangular_matrix_chunk_iter
 )
@@ -244,11 +244,10 @@ def pairwise_fuzzy_clusters(data, similarity=None, distance=None, radius=None,
         )
 
         # Pool
-        with Pool(processes=processes) as pool:
-            pairs = []
+        pairs = []
 
-            for matches in pool.imap(pairwise_worker, pool_iter):
-                pairs.extend(matches)
+        for matches in imap_in_pool(pairwise_worker, pool_iter, processes):
+            pairs.extend(matches)
 
         # NOTE: sorting so the graph is built in the same order as above
         for i, j in sorted(pairs):
@@ -365,10 +364,9 @@ def pairwise_connected_components(data, similarity=None, distance=None, radius=N
         )
 
         # Pool
-        with Pool(processes=processes) as pool:
-            for matches in pool.imap_unordered(pairwise_worker, pool_iter):
-                for i, j in matches:
-                    sets.union(i, j)
+        for matches in imap_in_pool(pairwise_worker, pool_iter, processes):
+            for i, j in matches:
+                sets.union(i, j)
 
     # TODO: Should really be using the sparse version
     for component in sets.components(min_size=min_size, max_size=max_size):
diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index df3eb7c..fa78c5e 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -29,10 +29,9 @@
 #
 import dill
 import random
-from multiprocessing import Pool
 from phylactery import VPTree
 
-from fog.clustering.utils import clusters_from_pairs
+from fog.clustering.utils import clusters_from_pairs, imap_in_pool
 
 # TODO: implement the eta parameter
 
@@ -328,16 +327,15 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 yield from BF(S1, S2, distance, radius)
 
     def clustering_parallel():
-        with Pool(processes=processes) as pool:
-            pickled_distance = dill.dumps(distance)
+        pickled_distance = dill.dumps(distance)
 
-            pool_iter = (
-                (pickled_distance, radius, S1, S2, vp_tree)
-                for S1, S2 in blocks()
-            )
+        pool_iter = (
+            (pickled_distance, radius, S1, S2, vp_tree)
+            for S1, S2 in blocks()
+        )
 
-            for pairs in pool.imap(worker, pool_iter):
-                yield from pairs
+        for pairs in imap_in_pool(worker, pool_iter, processes):
+            yield from pairs
 
     yield from clusters_from_pairs(
         clustering() if processes == 1 else clustering_parallel(),
diff --git a/fog/clustering/utils.py b/fog/clustering/utils.py
index 8e2d946..5a0644c 100644
--- a/fog/clustering/utils.py
+++ b/fog/clustering/utils.py
@@ -5,6 +5,7 @@
 # Miscellaneous redundant functions used by clustering routines.
 #
 from collections import defaultdict
+from multiprocessing import Pool
 import math
 
 
@@ -216,3 +217,43 @@ def upper_triangular_matrix_chunk_iter(data, chunk_size):
                 i_offset,
                 j_offset
             )
+
+
+def imap_in_pool(worker, payloads, processes):
+    """
+    Function mapping a worker function over given payloads using a pool of
+    processes.
+
+    Note that the processes are left to finish what they were given, even when
+    one of them fails, since terminating a process while it holds the lock of
+    one of the pool's queues may hang forever.
+
+    Args:
+        worker (callable): Function to apply to each payload.
+        payloads (iterable): The payloads.
+        processes (int): Number of processes to use.
+
+    Yields:
+        any: Results of the worker, in order.
+
+    """
+    failed = False
+
+    def feed():
+        for payload in payloads:
+            if failed:
+                break
+
+            yield payload
+
+    with Pool(processes=processes) as pool:
+        try:
+            yield from pool.imap(worker, feed())
+        except Exception:
+            failed = True
+            pool.close()
+            pool.join()
+            raise
+
+        pool.close()
+        pool.join()
-- 
2.43.0


From 0590d6d28249c45a77799aa5b36267078fb92713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 52/55] fix: parallel clustering lost pairs or hanged on some
 failures of workers

A worker raising StopIteration looked like the end of the results, so that the
remaining pairs were lost, and one raising an exception which cannot be
unpickled hanged the pool forever.
---
 fog/clustering/utils.py | 59 +++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/fog/clustering/utils.py b/fog/clustering/utils.py
index 5a0644c..5fb89e0 100644
--- a/fog/clustering/utils.py
+++ b/fog/clustering/utils.py
@@ -5,8 +5,10 @@
 # Miscellaneous redundant functions used by clustering routines.
 #
 from collections import defaultdict
+from functools import partial
 from multiprocessing import Pool
 import math
+import pickle
 
 
 def make_similarity_function(similarity=None, distance=None, radius=None):
@@ -219,6 +221,36 @@ def upper_triangular_matrix_chunk_iter(data, chunk_size):
             )
 
 
+def call_in_pool(worker, payload):
+    """
+    Function calling a worker function in one of the pool's processes, and
+    making sure that what it may raise is able to reach the main process.
+
+    Args:
+        worker (callable): Function to apply to the payload.
+        payload (any): The payload.
+
+    Returns:
+        any: Result of the worker.
+
+    """
+    try:
+        return worker(payload)
+
+    # NOTE: it would be mistaken for the end of the results
+    except StopIteration as e:
+        raise RuntimeError('fog.clustering: worker raised StopIteration') from e
+
+    # NOTE: the pool hangs forever on exceptions that cannot be unpickled
+    except Exception as e:
+        try:
+            pickle.loads(pickle.dumps(e))
+        except Exception:
+            raise RuntimeError('fog.clustering: worker raised %r' % e) from None
+
+        raise
+
+
 def imap_in_pool(worker, payloads, processes):
     """
     Function mapping a worker function over given payloads using a pool of
@@ -237,23 +269,28 @@ def imap_in_pool(worker, payloads, processes):
         any: Results of the worker, in order.
 
     """
-    failed = False
+    failures = []
 
+    # NOTE: the payloads are iterated over by a thread of the pool, which would
+    # otherwise send what they may raise through one of the processes
     def feed():
-        for payload in payloads:
-            if failed:
-                break
+        try:
+            for payload in payloads:
+                if failures:
+                    break
 
-            yield payload
+                yield payload
+        except Exception as e:
+            failures.append(e)
 
     with Pool(processes=processes) as pool:
         try:
-            yield from pool.imap(worker, feed())
-        except Exception:
-            failed = True
-            pool.close()
-            pool.join()
-            raise
+            yield from pool.imap(partial(call_in_pool, worker), feed())
+        except Exception as e:
+            failures.append(e)
 
         pool.close()
         pool.join()
+
+    if failures:
+        raise failures[0]
-- 
2.43.0


From 58010fa987b9e7c657d148092f86ebe7d11b0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 53/55] fix: parallel blocking and quickjoin cut the clusters
 of items compared by identity

Pairs coming from other processes held copies of the items, so that items
compared by identity (the default for objects) were never the same from one
block to another.
---
 fog/clustering/blocking.py  | 20 +++++++++++++-------
 fog/clustering/quickjoin.py | 29 +++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/fog/clustering/blocking.py b/fog/clustering/blocking.py
index d294b53..85463b7 100644
--- a/fog/clustering/blocking.py
+++ b/fog/clustering/blocking.py
@@ -26,6 +26,9 @@ def block_worker(payload):
     Worker function used compute pairwise distance/similarity over a whole
     block.
 
+    Note that it returns pairs of indices in the block, since items coming from
+    another process would be copies.
+
     """
     similarity, block, serialized, graph = payload
 
@@ -45,7 +48,7 @@ def block_worker(payload):
                 continue
 
             if similarity(A, B):
-                pairs.append((A, B))
+                pairs.append((i, j))
 
     return pairs
 
@@ -127,20 +130,23 @@ def blocking(data, block=None, blocks=None, similarity=None, distance=None,
                 if type(bucket) is not list:
                     bucket = list(bucket)
 
-                yield from block_worker((similarity, bucket, False, worker_graph))
+                for i, j in block_worker((similarity, bucket, False, worker_graph)):
+                    yield (bucket[i], bucket[j])
         else:
 
             pickled_similarity = dill.dumps(similarity)
 
+            compared = [bucket for bucket in buckets.values() if len(bucket) > 1]
+
             pool_iter = (
-                (pickled_similarity, bucket if type(bucket) is list else list(bucket), True, None)
+                (pickled_similarity, bucket, True, None)
                 for bucket
-                in buckets.values()
-                if len(bucket) > 1
+                in compared
             )
 
-            for pairs in imap_in_pool(block_worker, pool_iter, processes):
-                yield from pairs
+            for pairs, bucket in zip(imap_in_pool(block_worker, pool_iter, processes), compared):
+                for i, j in pairs:
+                    yield (bucket[i], bucket[j])
 
     yield from clusters_from_pairs(
         clustering(),
diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index fa78c5e..16bb5e5 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -29,6 +29,7 @@
 #
 import dill
 import random
+from collections import deque
 from phylactery import VPTree
 
 from fog.clustering.utils import clusters_from_pairs, imap_in_pool
@@ -182,9 +183,16 @@ def worker(payload):
     BF, SBF = select_block_functions(vp_tree)
 
     if S2 is None:
-        return list(SBF(S1, distance, radius))
+        S = S1
+        pairs = SBF(S1, distance, radius)
+    else:
+        S = S1 + S2
+        pairs = BF(S1, S2, distance, radius)
+
+    # NOTE: returning indices, since the main process would receive copies
+    indices = {id(item): i for i, item in enumerate(S)}
 
-    return list(BF(S1, S2, distance, radius))
+    return [(indices[id(A)], indices[id(B)]) for A, B in pairs]
 
 
 def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
@@ -329,13 +337,18 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
     def clustering_parallel():
         pickled_distance = dill.dumps(distance)
 
-        pool_iter = (
-            (pickled_distance, radius, S1, S2, vp_tree)
-            for S1, S2 in blocks()
-        )
+        sent = deque()
+
+        def payloads():
+            for S1, S2 in blocks():
+                sent.append(S1 if S2 is None else S1 + S2)
+                yield (pickled_distance, radius, S1, S2, vp_tree)
+
+        for pairs in imap_in_pool(worker, payloads(), processes):
+            S = sent.popleft()
 
-        for pairs in imap_in_pool(worker, pool_iter, processes):
-            yield from pairs
+            for i, j in pairs:
+                yield (S[i], S[j])
 
     yield from clusters_from_pairs(
         clustering() if processes == 1 else clustering_parallel(),
-- 
2.43.0


From fb4cb0f92700e48d39d14058a52e852fc4abe72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:17 +0000
Subject: [PATCH 54/55] fix: fingerprint crashed when given no splitting
 characters

---
 fog/tokenizers/fingerprint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 6c3ab56..55ad53b 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -77,6 +77,10 @@ class FingerprintTokenizer(object):
             )
 
         if split is not None:
+            split = ''.join(split)
+
+        # NOTE: a class of characters cannot be empty
+        if split:
             self.split_re = re.compile('[' + re.escape(''.join(split)) + ']')
 
         if min_token_size and min_token_size > 1:
-- 
2.43.0


From ca8a911fd6b647f88dba363083a7bfaf779aa946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:32 +0000
Subject: [PATCH 55/55] fix: transform --eval expressions could not use the
 value in an inner scope

---
 fog/cli/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/cli/transform.py b/fog/cli/transform.py
index 2eb7beb..1f563ac 100644
--- a/fog/cli/transform.py
+++ b/fog/cli/transform.py
@@ -44,8 +44,9 @@ def transform_action(namespace):
         new_value = line[position]
 
         if namespace.eval:
-            new_value = eval(namespace.operations, None, {
-                'unidecode': unidecode,
+            # NOTE: names must be global to be found by inner scopes
+            new_value = eval(namespace.operations, {
+                **globals(),
                 'value': new_value
             })
         else:
-- 
2.43.0

