From b432bc3f00e16f00727f888fe0e0d2f11a8b03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 01/18] fix: virtual evidence with a 1.0 likelihood is not an
 observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..23d358a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -796,7 +796,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 4b542acb38518b7c577ea9362a9b9d3af03edda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 02/18] fix: propagate evidence in every component of a
 disconnected BBN

---
 pybbn/pptc/propagator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..b7d9a66 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,17 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # a disconnected BBN gives a forest; propagate in every tree of it
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From 7fb3b0bac30943bf191fdcb47fcd64f41c5b8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 03/18] fix: keep cliques without edges when deserializing a
 join tree

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 23d358a..189cad8 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -492,11 +492,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 003c133966c4229696211e3b812e9b8df60762f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 04/18] fix: forget the parent clique of an earlier compilation
 of the BBN

---
 pybbn/pptc/potentialinitializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybbn/pptc/potentialinitializer.py b/pybbn/pptc/potentialinitializer.py
index 91b1ee6..4dfe386 100644
--- a/pybbn/pptc/potentialinitializer.py
+++ b/pybbn/pptc/potentialinitializer.py
@@ -21,6 +21,8 @@ class PotentialInitializer(object):
             )
             potential = PotentialUtil.get_potential(node, parents)
             node.potential = potential
+            # a clique assigned by an earlier compilation may not fit this BBN
+            node.metadata.pop("parent.clique", None)
 
     @staticmethod
     def reinit(jt):
-- 
2.43.0


From 4ff326f24dd8b4fcad05a46b00b3c1eabf443278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 05/18] fix: set_observation compares validated evidence with
 an actual observation

---
 pybbn/graph/jointree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 189cad8..572d133 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -387,22 +387,25 @@ class JoinTree(Ug):
         """
         potentials = self.evidences[evidence.node.id]
 
+        evidence.validate()
+
         pvalues = []
+        zeros = 0
         for v, potential in potentials.items():
             entry = potential.entries[0]
             p = entry.value
             if 1.0 == p:
                 pvalues.append(v)
+            elif 0.0 == p:
+                zeros += 1
 
         cvalues = []
         for v, likelihood in evidence.values.items():
             if 1.0 == likelihood:
                 cvalues.append(v)
 
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
-            if last_value == curr_value:
+        if 1 == len(pvalues) and len(potentials) - 1 == zeros:
+            if pvalues == cvalues:
                 self.unobserve([evidence.node])
             else:
                 self.update_evidences([evidence])
-- 
2.43.0


From caec3c007f12cc40481f0201bdf233a610387132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 06/18] fix: reject a sample when the last node mismatches the
 evidence

---
 pybbn/sampling/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..a2d2d43 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -156,8 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
             if len(samples) == n_samples:
-- 
2.43.0


From 79b2e702021fe393322676e8912d7a641ac6190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 07/18] fix: sample every parent before its children

---
 pybbn/sampling/sampling.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index a2d2d43..277210e 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -123,14 +122,14 @@ class LogicSampler(object):
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
+        remaining = sorted(nodes, key=lambda n: n.node_id)
+        nodes = []
+        while len(remaining) > 0:
+            # "parent before child" and "by id" together are no total order, so
+            # take the smallest id having all of its parents placed
+            node = next(n for n in remaining if n.parent_ids.issubset(nodes))
+            remaining.remove(node)
+            nodes.append(node.node_id)
         return nodes
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
-- 
2.43.0


From 84923261a88f7a659c262e8c12ec09ea2a1e920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 08/18] fix: sample from CPT rows in the order of the parents
 that inference uses

---
 pybbn/sampling/sampling.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 277210e..daa3ec9 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -27,28 +27,34 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], cpt_parent_ids=None):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param cpt_parent_ids: List of parent IDs in the order of the rows of the CPT (default is by ID).
         """
         self.node = node
         self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
         else:
-            cartesian = list(
-                itertools.product(*[node.variable.values for node in self.parents])
-            )
+            cpt_parents = self.parents
+            if cpt_parent_ids is not None:
+                id2parent = {p.id: p for p in self.parents}
+                cpt_parents = [id2parent[i] for i in cpt_parent_ids]
+            cartesian = [
+                {node.id: val for node, val in zip(cpt_parents, values)}
+                for values in itertools.product(
+                    *[node.variable.values for node in cpt_parents]
+                )
+            ]
             get_kv = lambda i, v: f"{i}={v}"
             keys = [
-                ",".join(
-                    [get_kv(node.id, val) for node, val in zip(self.parents, values)]
-                )
+                ",".join([get_kv(node.id, values[node.id]) for node in self.parents])
                 for values in cartesian
             ]
             n = len(node.variable.values)
@@ -109,7 +115,10 @@ class LogicSampler(object):
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {
+            node.id: Table(node, parents, self.bbn.parents.get(node.id))
+            for node, parents in tables
+        }
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From 04ce270f7743edcd27a0ab28a26d1fa51488a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 09/18] fix: get_samples returns when no samples are asked for

---
 pybbn/sampling/sampling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index daa3ec9..737605a 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -153,7 +153,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -167,7 +167,4 @@ class LogicSampler(object):
             else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From 9e595f8db6403b3be05a2933a411ab6ccd77a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/18] fix: removing a node removes its edges and parent
 entries

---
 pybbn/graph/dag.py   | 13 +++++++++++++
 pybbn/graph/graph.py |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..f349491 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -136,6 +136,19 @@ class Bbn(Dag):
         """
         return sorted(self.parents[id]) if id in self.parents else []
 
+    def remove_node(self, id):
+        """
+        Removes a node from the graph.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+        self.parents.pop(id, None)
+
+        for pa_ids in self.parents.values():
+            if id in pa_ids:
+                pa_ids.remove(id)
+
     def __edge_added__(self, edge):
         if edge.j.id not in self.parents:
             self.parents[edge.j.id] = []
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..b58c678 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -152,6 +152,10 @@ class Graph(object):
             if id in v:
                 v.remove(id)
 
+        for k, e in list(self.edges.items()):
+            if id in (e.i.id, e.j.id):
+                self.edges.pop(k)
+
     def __str__(self):
         nodes = str.join("\n", [x.__str__() for x in self.nodes.values()])
         edges = str.join("\n", [x.__str__() for x in self.edges.values()])
-- 
2.43.0


From 9096852c9ae31cef6cc25947db869344649fe82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 11/18] fix: from_data adds parents in the order of the rows of
 the CPT

---
 pybbn/graph/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..333d4e2 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,8 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            # the rows of the CPT are laid out by parent name
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From 3fa4154b0f956a539d2f795620921ea3d426741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 12/18] fix: from_data orders the nodes by the structure, not
 by the data

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 333d4e2..dd49f84 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From 9758dd0497d84634eb4606a3b14db95f8e58769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 13/18] fix: from_data counts rows of any column name and value
 type

---
 pybbn/graph/factory.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index dd49f84..6d59102 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -183,14 +183,14 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    denom_df = df
+                    for pa, v in zip(domain_names, values):
+                        denom_df = denom_df[denom_df[pa] == v]
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
+                        numer_df = denom_df[denom_df[name] == v]
 
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = numer_df.shape[0] / n
+                        denom = denom_df.shape[0] / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From ad61ac9c169bf8cf34bbf5b31edefacf0240cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 14/18] fix: ACE weighs by the joint probability of the parents

---
 pybbn/causality/ace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..1967469 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -49,9 +49,13 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # the parents of X may depend on each other; use the chain rule
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
+            probs = []
+            for n, v in z:
+                posteriors = self.jt.get_posteriors()
+                probs.append(posteriors[n][v])
+                self.jt.update_evidences([get_evidence(n, v)])
             probs = reduce(operator.mul, probs, 1)
             return probs
 
-- 
2.43.0


From 0b7ab838894fe423c241820dfc59612765409791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 15/18] fix: match each Gaussian observation with the mean of
 its own variable

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From fb6a1792d7a03e4834291a166332b94ebe96d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 16/18] fix: converted BBN keeps the parent order of the
 generated parameters

---
 pybbn/generator/bbngenerator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..876a339 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -380,10 +380,12 @@ def convert_for_exact_inference(g, p):
         bbn.add_node(n)
         bbn_nodes[id] = n
 
-    for e in g.edges:
-        pa = bbn_nodes[e[0]]
-        ch = bbn_nodes[e[1]]
-        bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
+    # the rows of the parameters are in the order of the predecessors
+    for node in g.nodes:
+        for parent in g.predecessors(node):
+            pa = bbn_nodes[parent]
+            ch = bbn_nodes[node]
+            bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
 
     return bbn
 
-- 
2.43.0


From 12587ed20d7eeed4793a72f3d4384e453e02d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 17/18] fix: generating a BBN of one node returns

---
 pybbn/generator/bbngenerator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 876a339..30ef515 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,6 +155,8 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
@@ -174,6 +176,9 @@ def __generate_singly_structure__(n, max_iter=10):
     """
     g = __get_simple_ordered_tree__(n)
 
+    if n < 2:
+        return g
+
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True or g.has_edge(j, i) is True:
-- 
2.43.0


From 850d7f6f243a6f03d830f9cea874c0276e732345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 18/18] fix: virtual evidence does not withdraw an
 equal-looking observation

---
 pybbn/graph/jointree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 572d133..18282df 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -400,12 +400,15 @@ class JoinTree(Ug):
                 zeros += 1
 
         cvalues = []
+        czeros = 0
         for v, likelihood in evidence.values.items():
             if 1.0 == likelihood:
                 cvalues.append(v)
+            elif 0.0 == likelihood:
+                czeros += 1
 
         if 1 == len(pvalues) and len(potentials) - 1 == zeros:
-            if pvalues == cvalues:
+            if pvalues == cvalues and len(evidence.values) - 1 == czeros:
                 self.unobserve([evidence.node])
             else:
                 self.update_evidences([evidence])
-- 
2.43.0

