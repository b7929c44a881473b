From 483d3edf15c65d76a4556e29b394909820a63593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 001/171] fix: CausalGraph uses to_numpy_array, to_numpy_matrix
 is gone from networkx 3

---
 ylearn/causal_model/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..6052ee0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = nx.to_numpy_array(self.dag)
         return W
 
     # def to_adj_list(self):
-- 
2.43.0


From fc91ebb97f9489ac5497b03df5e4e1a66ddcaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 002/171] fix: keep isolated nodes in the observed graph

---
 ylearn/causal_model/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 6052ee0..5fc0632 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -287,6 +287,7 @@ class CausalGraph:
             for para in v:
                 edges.append((para, k, 0))
         ob_dag = nx.MultiDiGraph()
+        ob_dag.add_nodes_from(self.causation.keys())
         ob_dag.add_edges_from(edges)
         return ob_dag
 
-- 
2.43.0


From feda35b34eeced89a358932484b6ad85584ecad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 003/171] fix: graph edits keep causation and dag in step

---
 ylearn/causal_model/graph.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 5fc0632..3994788 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -334,7 +334,7 @@ class CausalGraph:
         ----------
         CausalGraph
         """
-        ori_nodes = self.dag.nodes
+        ori_nodes = set(self.dag.nodes)
 
         if not new:
             self.dag.add_nodes_from(nodes)
@@ -369,7 +369,8 @@ class CausalGraph:
         if not new:
             if observed:
                 for edge in edge_list:
-                    self.causation[edge[1]].append(edge[0])
+                    if edge[0] not in self.causation[edge[1]]:
+                        self.causation[edge[1]].append(edge[0])
                     self.dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
@@ -380,9 +381,10 @@ class CausalGraph:
             new_dag = deepcopy(self.dag)
             new_causation = deepcopy(self.causation)
             if observed:
-                new_dag.add_edges_from(edge_list)
                 for edge in edge_list:
-                    new_causation[edge[1]].append(edge[0])
+                    if edge[0] not in new_causation[edge[1]]:
+                        new_causation[edge[1]].append(edge[0])
+                    new_dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
                     new_dag.add_edges_from(
@@ -408,9 +410,10 @@ class CausalGraph:
         """
         if observed:
             self.dag.add_edge(s, t, 0)
-            self.causation[t].append(s)
+            if s not in self.causation[t]:
+                self.causation[t].append(s)
         else:
-            self.dag.add_edge(s, t, 'n')
+            self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
     def remove_nodes(self, nodes, new=False):
         """
-- 
2.43.0


From c51621330334c86ed03491ed57ee023a1033a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 004/171] fix: explicit unobserved variables do not reuse the
 name of a user's node

---
 ylearn/causal_model/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 3994788..4d1758b 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -301,7 +301,10 @@ class CausalGraph:
         nx.MultiDiGraph
         """
         new_dag = self.observed_dag
-        for i, (node1, node2) in enumerate(self.latent_confounding_arcs):
+        i = 0
+        for node1, node2 in self.latent_confounding_arcs:
+            while f'U{i}' in new_dag:
+                i += 1
             new_dag.add_edges_from(
                 [(f'U{i}', node1, 'n'), (f'U{i}', node2, 'n')]
             )
-- 
2.43.0


From 71c79c35fe23e7cd8d11a9648995e3a789d3cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 005/171] fix: editing a CausalGraph does not edit the dict it
 was built from

---
 ylearn/causal_model/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 4d1758b..ab2ab62 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,7 +119,9 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(
+            list, {node: list(parents) for node, parents in causation.items()}
+        )
         self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag
 
-- 
2.43.0


From 05eb10aaf4f724e1ff16f069fd2d8fd55dbe0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 006/171] fix: a node that is only ever named as a parent is a
 node of the graph

---
 ylearn/causal_model/graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index ab2ab62..24ea69f 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -122,6 +122,10 @@ class CausalGraph:
         self.causation = defaultdict(
             list, {node: list(parents) for node, parents in causation.items()}
         )
+        # nodes which only appear as parents are also nodes of the graph
+        for parents in list(self.causation.values()):
+            for node in parents:
+                self.causation.setdefault(node, [])
         self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag
 
@@ -376,6 +380,7 @@ class CausalGraph:
                 for edge in edge_list:
                     if edge[0] not in self.causation[edge[1]]:
                         self.causation[edge[1]].append(edge[0])
+                    self.causation.setdefault(edge[0], [])
                     self.dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
@@ -417,6 +422,7 @@ class CausalGraph:
             self.dag.add_edge(s, t, 0)
             if s not in self.causation[t]:
                 self.causation[t].append(s)
+            self.causation.setdefault(s, [])
         else:
             self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
-- 
2.43.0


From 66d2e4c9b64c3b002a90836e5d7b73e9c3969e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 007/171] fix: id() accepts names longer than one character

---
 ylearn/causal_model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..09cf71b 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -165,7 +165,8 @@ class CausalModel:
         v = set(graph.causation.keys())
         v_topo = list(graph.topo_order)
 
-        y, x = set(y), set(x)
+        y = {y} if isinstance(y, str) else set(y)
+        x = {x} if isinstance(x, str) else set(x)
 
         # 1
         if not x:
-- 
2.43.0


From bf6e97e565a9f34130067a29faea60c73c258841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 008/171] fix: id() does not change the prob passed in

---
 ylearn/causal_model/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 09cf71b..0b24f31 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -170,6 +170,7 @@ class CausalModel:
 
         # 1
         if not x:
+            prob = deepcopy(prob)
             if prob.divisor or prob.product:
                 prob.marginal = v.difference(y).union(prob.marginal)
             else:
-- 
2.43.0


From bd8cfe76b9da249aeab67e428d9ddcb0e6e64c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 009/171] fix: id() factorises the distribution of the
 subproblem, not the joint one

---
 ylearn/causal_model/model.py | 25 +++++++++++++++++--------
 ylearn/causal_model/prob.py  |  7 ++++++-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 0b24f31..8787f82 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -219,10 +219,7 @@ class CausalModel:
                 product_expression = set()
                 for element in s:
                     product_expression.add(
-                        Prob(
-                            variables={element},
-                            conditional=set(v_topo[: v_topo.index(element)]),
-                        )
+                        self._conditional_factor(prob, v_topo, element)
                     )
                 return Prob(marginal=s.difference(y), product=product_expression)
 
@@ -235,15 +232,27 @@ class CausalModel:
                         product_expressioin = set()
                         for element in subset:
                             product_expressioin.add(
-                                Prob(
-                                    variables={element},
-                                    conditional=set(v_topo[: v_topo.index(element)]),
-                                )
+                                self._conditional_factor(prob, v_topo, element)
                             )
                         sub_prob = Prob(product=product_expressioin)
                         sub_graph = graph.build_sub_graph(subset)
                         return self.id(y, x.intersection(subset), sub_prob, sub_graph)
 
+    @staticmethod
+    def _conditional_factor(prob, v_topo, element):
+        """The probability of element conditional on all nodes before it in
+        v_topo, in the distribution over v_topo which is encoded by prob.
+        """
+        before = set(v_topo[: v_topo.index(element)])
+        if not (prob.divisor or prob.product):
+            return Prob(variables={element}, conditional=before)
+
+        after = set(v_topo).difference(before)
+        numerator, denominator = deepcopy(prob), deepcopy(prob)
+        numerator.marginal = after.difference({element}).union(prob.marginal)
+        denominator.marginal = after.union(prob.marginal)
+        return Prob(product={numerator}, divisor={denominator})
+
     def identify(self, treatment, outcome, identify_method="auto"):
         """Identify the causal effect expression. Identification is an operation that
         converts any causal effect quantity, e.g., quantities with the do operator, into
diff --git a/ylearn/causal_model/prob.py b/ylearn/causal_model/prob.py
index 775d2ad..afe3e95 100644
--- a/ylearn/causal_model/prob.py
+++ b/ylearn/causal_model/prob.py
@@ -17,7 +17,7 @@ class Prob:
         The conditional set (y in the above example).
     
     divisor : set
-        Not defined yet.
+        Set of Prob dividing the part of the expression inside the sum.
     
     marginal : set
         The sum set (w in the above example) for marginalizing the probability.
@@ -96,6 +96,11 @@ class Prob:
             for p in self.product:
                 expression = expression + '\\left[' + p.parse() + '\\right]'
 
+        # Find the divisors, -> \sum_{marginal} .. / (div1 div2 ..)
+        if self.divisor:
+            div = ''.join('\\left[' + p.parse() + '\\right]' for p in self.divisor)
+            expression = expression + '/' + '\\left(' + div + '\\right)'
+
         return expression
 
     def show_latex_expression(self):
-- 
2.43.0


From bf7fa603fe0b339f50ffeb885f060afd16a08581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 010/171] fix: frontdoor methods accept any node name and leave
 the caller's sets alone

---
 ylearn/causal_model/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 8787f82..6faf9e6 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -824,7 +824,7 @@ class CausalModel:
             of treatments on outcomes.
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set_, set(treatment), set(outcome))
+        check_nodes(ava_nodes, set_, {treatment}, {outcome})
 
         # rule 1, intercept all directed paths from treatment to outcome
         for path in nx.all_simple_paths(
@@ -861,14 +861,14 @@ class CausalModel:
             2 elements (adjustment_set, Prob)
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set(treatment), set(outcome))
+        check_nodes(ava_nodes, treatment, outcome)
 
         if type(treatment) is set and type(outcome) is set:
             assert (
                 len(treatment) == 1 and len(outcome) == 1
             ), "Treatment and outcome should be sets which contain one"
             "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+            treatment, outcome = next(iter(treatment)), next(iter(outcome))
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From ad7f483490fc6f55ec9b503d64c5e3dceaeb903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 011/171] fix: a valid backdoor set holds no descendent of the
 treatment

---
 ylearn/causal_model/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 6faf9e6..150d805 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -577,6 +577,11 @@ class CausalModel:
         ava_nodes = self.causal_graph.causation.keys()
         check_nodes(ava_nodes, treatment, outcome, set_)
 
+        # descendents of the treatment can not be used for adjusting
+        set_ = {set_} if isinstance(set_, str) else set(set_)
+        if set_.intersection(self.causal_graph.descendents(treatment)):
+            return False
+
         # build the causal graph with unobserved variables explicit
         modified_dag = self.causal_graph.remove_outgoing_edges(
             treatment, new=True
-- 
2.43.0


From 9e6e50ea51210969bbcadfea3a70a3a6c4541607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 012/171] fix: frontdoor criterion sees the backdoor path made
 of a single edge

---
 ylearn/causal_model/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 150d805..3da4681 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -839,10 +839,8 @@ class CausalModel:
                 return False
 
         # rule 2, there is no unblocked back-door path from treatment to set_
-        for subset in set_:
-            for path in self.get_backdoor_path(treatment, subset):
-                if self.is_connected_backdoor_path(path):
-                    return False
+        if set_ and not self.is_valid_backdoor_set(set(), treatment, set_):
+            return False
 
         # rule 3, all backdoor paths from set_ to outcome are blocked by
         # treatment
-- 
2.43.0


From 7301bb32863126c0b4b1c41f1b890baefdbff0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 013/171] fix: a descendent of the outcome is no instrument

---
 ylearn/causal_model/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 3da4681..a57c811 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -958,7 +958,9 @@ class CausalModel:
         # We also should not count on descendents of ancestors of the outcome which
         # may have effects on y through backdoor paths
         # excluded_nodes_des = nx.descendants(modified_graph, excluded_nodes_an)
-        excluded_nodes_des = descendents_of_iter(modified_graph, excluded_nodes_an)
+        excluded_nodes_des = descendents_of_iter(
+            modified_graph, excluded_nodes_an.union({outcome})
+        )
         iv = waited_instrument.difference(excluded_nodes_des)
 
         if not iv:
-- 
2.43.0


From da9acfc326c7942cf1317edefe4ba1ab08be58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 014/171] fix: get_backdoor_set only returns sets which satisfy
 the backdoor criterion

---
 ylearn/causal_model/model.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a57c811..da296bb 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -637,7 +637,13 @@ class CausalModel:
 
         def determine(modified_dag, treatment, outcome):
             if all([self.causal_graph.causation[t] == [] for t in treatment]):
-                return nx.d_separated(modified_dag, treatment, outcome, set())
+                candidates = set(ava_nodes).difference(
+                    self.causal_graph.descendents(treatment), outcome
+                )
+                return any(
+                    nx.d_separated(modified_dag, treatment, outcome, i)
+                    for i in powerset(candidates)
+                )
             return True
 
         # raise exception if no set can be used as the backdoor set
@@ -651,8 +657,17 @@ class CausalModel:
             # TODO: if the parent of x_i is the descendent of another x_j
             backdoor_list = []
             for t in treatment:
-                backdoor_list += self.causal_graph.causation[t]
+                for p in self.causal_graph.causation[t]:
+                    if p not in treatment and p not in backdoor_list:
+                        backdoor_list.append(p)
             adset = set(backdoor_list)
+
+            if outcome.intersection(adset) or not self.is_valid_backdoor_set(
+                adset, treatment, outcome
+            ):
+                print("The parents of the treatment do not satisfy the backdoor criterion.")
+
+                return None
         # use other methods
         else:
             # Get all backdoor sets. currently implenmented
-- 
2.43.0


From 5c7de9786215679fbe7c762fba06d493dc42413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 015/171] fix: a chain of incoming edges has no collider

---
 ylearn/causal_model/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index da296bb..8005fdf 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -788,6 +788,9 @@ class CausalModel:
                             return False
                         j = i
                         break
+                else:
+                    # all edges point towards path[0]
+                    return False
                 for i, node in enumerate(path[j + 1 :], j + 1):
                     if node in dag.predecessors(path[i - 1]):
                         return True
-- 
2.43.0


From 1ad6f2550a8d4877a7ff2cb3543d81a10eb3569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 016/171] fix: SLearner.estimate does not overwrite the
 compared levels

---
 ylearn/estimator_model/meta_learner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..71469a9 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -450,14 +450,14 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
+        treat_index = get_tr_ctrl(
             self.treat,
             self._comp_transformer,
             treat=True,
             one_hot=False,
             discrete_treat=True,
         )
-        self.control = get_tr_ctrl(
+        control_index = get_tr_ctrl(
             self.control,
             self._comp_transformer,
             treat=False,
@@ -472,8 +472,8 @@ class SLearner(BaseEstModel):
             self._x_d,
         )
 
-        treat[self.treat] = 1
-        control[self.control] = 1
+        treat[treat_index] = 1
+        control[control_index] = 1
 
         xt = np.repeat(treat.reshape(1, -1), n, axis=0)
         x0 = np.repeat(control.reshape(1, -1), n, axis=0)
-- 
2.43.0


From 4562f857b07b6326845169085234f500bd0fdbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 017/171] fix: effect_nji of meta learners tells outcomes from
 treatment levels

---
 ylearn/estimator_model/meta_learner.py | 33 +++++++-------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 71469a9..b608a86 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -293,15 +293,10 @@ class SLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -803,15 +798,10 @@ class TLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -1317,15 +1307,10 @@ class XLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
-- 
2.43.0


From a8847aa0f7a32999f94771a21865a4d2a393c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 018/171] fix: XLearner supports class probabilities with
 separate treatments

---
 ylearn/estimator_model/meta_learner.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index b608a86..f74df4f 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -786,9 +786,9 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = self.xt_model.classes_
-            except:
+            else:
                 classes_ = self._fitted_dict_separa["models"][0].classes_
         else:
             classes_ = None
@@ -1249,12 +1249,12 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = (
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
+            else:
+                classes_ = self._f0_model_separa.classes_
             # else:
             #     classes_ = None
         else:
@@ -1483,6 +1483,7 @@ class XLearner(BaseEstModel):
         treat_arrays = cartesian(waited_treat)
 
         f0_model = clone(self.f0_model)
+        self._f0_model_separa = f0_model
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
@@ -1558,7 +1559,7 @@ class XLearner(BaseEstModel):
         for i, (kt_model, k0_model) in enumerate(model_list):
             pred_t = kt_model.predict(wv)
             pred_0 = k0_model.predict(wv)
-            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, self._y_d)
+            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-- 
2.43.0


From 570ad6de3e1568b33723d4159a3450089285147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 019/171] fix: meta learners keep the sample axis when
 estimating a single row

---
 ylearn/estimator_model/meta_learner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index f74df4f..fdacfcc 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -520,7 +520,8 @@ class SLearner(BaseEstModel):
                 fnji = (self.model.predict(x_treat) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        axes = tuple(i for i in (1, 2) if f_nji.shape[i] == 1)
+        return f_nji.squeeze(axis=axes)
 
     # def __repr__(self) -> str:
     #     return f'SLearner'
@@ -1014,7 +1015,8 @@ class TLearner(BaseEstModel):
                 fnji = (model.predict(wv) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        axes = tuple(i for i in (1, 2) if f_nji.shape[i] == 1)
+        return f_nji.squeeze(axis=axes)
 
     # def __repr__(self) -> str:
     #     return f'TLearner'
@@ -1562,10 +1564,11 @@ class XLearner(BaseEstModel):
             fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
-        if target_outcome is None:
-            return f_nji.squeeze()
-        else:
-            return f_nji[:, target_outcome, :].squeeze()
+        if target_outcome is not None:
+            f_nji = f_nji[:, target_outcome, :]
+
+        axes = tuple(i for i in (1, 2) if f_nji.shape[i] == 1)
+        return f_nji.squeeze(axis=axes)
 
     # def __repr__(self) -> str:
     #     return f'XLearner'
-- 
2.43.0


From a81e12783aac0b7a7b13d5d99f7333388dc49947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 020/171] fix: refitting a meta learner does not reuse the
 treatment encoder of the previous fit

---
 ylearn/estimator_model/meta_learner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index fdacfcc..46dbab9 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -344,6 +344,7 @@ class SLearner(BaseEstModel):
         # group_categories = self.transformer.categories_
         # n_treatments = len(group_categories)
 
+        self._is_fitted = False
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
@@ -859,6 +860,10 @@ class TLearner(BaseEstModel):
         instance of TLearner
         """
         # specify the treat and control label
+        # forget the transformers of any previous fit
+        for name in ("ord_transformer", "oh_transformer"):
+            self.__dict__.pop(name, None)
+
         x = self._comp_transformer(x, categories=categories)
 
         treat = get_tr_ctrl(
@@ -1351,6 +1356,10 @@ class XLearner(BaseEstModel):
         -------
         instance of XfLearner
         """
+        # forget the transformers of any previous fit
+        for name in ("ord_transformer", "oh_transformer"):
+            self.__dict__.pop(name, None)
+
         x = self._comp_transformer(x, categories)
 
         treat = get_tr_ctrl(
-- 
2.43.0


From e57b9fff005b0094977bf3dddcc2292a6f743d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 021/171] fix: TLearner and XLearner respect the categories
 given by the user

---
 ylearn/estimator_model/meta_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 46dbab9..f1e988c 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -935,7 +935,7 @@ class TLearner(BaseEstModel):
                 x[i] = self.label_dict[tuple(x_i)]
 
         if not hasattr(self, "oh_transformer"):
-            self.oh_transformer = ArrayOneHotEncoder()
+            self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
         x = self.oh_transformer.transform(x)
@@ -1449,7 +1449,7 @@ class XLearner(BaseEstModel):
                 x[i] = self.label_dict[tuple(x_i)]
 
         if not hasattr(self, "oh_transformer"):
-            self.oh_transformer = ArrayOneHotEncoder()
+            self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
         x = self.oh_transformer.transform(x)
-- 
2.43.0


From de107eaff7e612b8e72d2c0c162175ffc16a95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 022/171] fix: labels of treat and control keep their type when
 two treatments are labelled differently

---
 ylearn/estimator_model/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index ee0dfbd..46bd321 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -81,7 +81,9 @@ def get_tr_ctrl(tr_crtl, trans, *, treat=False, one_hot=False, discrete_treat=Tr
         if not isinstance(tr_crtl, np.ndarray):
             if not isinstance(tr_crtl, (list, tuple)):
                 tr_crtl = [tr_crtl]
-            tr_crtl = np.array(tr_crtl).reshape(1, -1)
+            # object keeps the type of each label: one treatment may be labelled
+            # with strings and another one with numbers
+            tr_crtl = np.array(tr_crtl, dtype=object).reshape(1, -1)
 
         tr_crtl = trans(tr_crtl).reshape(1, -1)
 
-- 
2.43.0


From ba55a9293744de5314078d2346a9cc3a2616c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 023/171] fix: DoubleML.estimate does not reuse the levels of
 the previous call

---
 ylearn/estimator_model/double_ml.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..e89d146 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -374,6 +374,9 @@ class DoubleML(BaseEstModel):
             **kwargs,
         )
 
+        self._fit_treat = kwargs.get("treat")
+        self._fit_control = kwargs.get("control")
+
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
         self._y_d = y.shape[1]
@@ -475,10 +478,12 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
-        if hasattr(self, "treat") and treat is None:
-            treat = self.treat
-        if hasattr(self, "control") and control is None:
-            control = self.control
+        # by default compare the levels specified in fit, not the ones of the
+        # last call
+        if treat is None:
+            treat = self._fit_treat
+        if control is None:
+            control = self._fit_control
 
         dis_tr = self.is_discrete_treatment
 
@@ -584,8 +589,8 @@ class DoubleML(BaseEstModel):
         n, x_d = y_nji.shape[0], y_nji.shape[2]
 
         if self.is_discrete_treatment:
-            if hasattr(self, "control") and control is None:
-                control = self.control
+            if control is None:
+                control = self._fit_control
             control = get_tr_ctrl(
                 control,
                 self.comp_transormer,
-- 
2.43.0


From 9379cb97f9a882e109e3f9f957174ad613ad7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 024/171] fix: refitting DoubleML does not reuse the treatment
 encoder of the previous fit

---
 ylearn/estimator_model/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index e89d146..63bbb7f 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -397,6 +397,8 @@ class DoubleML(BaseEstModel):
             # convert discrete treatment features to onehot vectors
             # note that when there are multiple treatments, we should convert
             # the problem into a single discrete treatment problem
+            # forget the encoders of any previous fit
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
-- 
2.43.0


From d9fff81b0891db8b610ea939967b70454b704a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 025/171] fix: DoubleML clones yx_model as it does with the
 other models

---
 ylearn/estimator_model/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 63bbb7f..293199a 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -307,7 +307,7 @@ class DoubleML(BaseEstModel):
         if yx_model is None:
             self.yx_model = LinearRegression()
         else:
-            self.yx_model = yx_model
+            self.yx_model = clone(yx_model)
 
         self.adjustment_transformer = adjustment_transformer
         self.covariate_transformer = covariate_transformer
-- 
2.43.0


From e26f6c6d38b18b8522fc1cd25077b1fa1fe32941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 026/171] fix: discrete levels can be given as arrays

---
 ylearn/estimator_model/double_ml.py | 4 ++--
 ylearn/estimator_model/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 293199a..4ef9a26 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -495,7 +495,7 @@ class DoubleML(BaseEstModel):
         if isinstance(control, pd.Series):
             control = control.values
 
-        if not isinstance(treat, np.ndarray):
+        if dis_tr or not isinstance(treat, np.ndarray):
             treat = get_tr_ctrl(
                 treat,
                 self.comp_transormer,
@@ -504,7 +504,7 @@ class DoubleML(BaseEstModel):
                 discrete_treat=dis_tr,
             )
 
-        if not isinstance(control, np.ndarray):
+        if dis_tr or not isinstance(control, np.ndarray):
             control = get_tr_ctrl(
                 control,
                 self.comp_transormer,
diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index 46bd321..e7dd7a9 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -83,9 +83,9 @@ def get_tr_ctrl(tr_crtl, trans, *, treat=False, one_hot=False, discrete_treat=Tr
                 tr_crtl = [tr_crtl]
             # object keeps the type of each label: one treatment may be labelled
             # with strings and another one with numbers
-            tr_crtl = np.array(tr_crtl, dtype=object).reshape(1, -1)
+            tr_crtl = np.array(tr_crtl, dtype=object)
 
-        tr_crtl = trans(tr_crtl).reshape(1, -1)
+        tr_crtl = trans(tr_crtl.reshape(1, -1)).reshape(1, -1)
 
         if not one_hot:
             tr_crtl = convert4onehot(tr_crtl).astype(int)[0]
-- 
2.43.0


From 5ad0f15bea97f9ba3ef19ad39c1868187d5ac3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 027/171] fix: DoubleML compares per sample treatments with a
 scalar level

---
 ylearn/estimator_model/double_ml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 4ef9a26..ab77d7e 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -522,9 +522,11 @@ class DoubleML(BaseEstModel):
                 treat = treat.reshape(-1, self._x_d)
             if isinstance(control, np.ndarray):
                 control = control.reshape(-1, self._x_d)
-                effect = np.einsum("nji, ni->nji", fij, treat - control)
-            else:
-                effect = fij * (treat - control)
+
+            diff = treat - control
+            if isinstance(diff, np.ndarray):
+                diff = diff.reshape(-1, 1, self._x_d)
+            effect = fij * diff
 
         if target_outcome is not None:
             assert (
-- 
2.43.0


From fa7359fb8fdb5086601492b9e954c4aa3cbd7448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 028/171] fix: DoubleML can be fitted without covariates

---
 ylearn/estimator_model/double_ml.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index ab77d7e..03744f5 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -379,6 +379,7 @@ class DoubleML(BaseEstModel):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
+        self._n = y.shape[0]
         self._y_d = y.shape[1]
         cfold = self.cf_fold
 
@@ -640,8 +641,9 @@ class DoubleML(BaseEstModel):
 
         if self.covariate_transformer is not None and v is not None:
             v = self.covariate_transformer.transform(v)
-        v = np.hstack([np.ones((v.shape[0], 1)), v])
-        n, v_d = v.shape[0], v.shape[1]
+        n = self._n if data is None else len(data)
+        v = self._add_const(v, n)
+        v_d = v.shape[1]
 
         # may need modification for multi-dim outcomes.
         # the reason we use transpose here is because coef f^i_{j, k}
@@ -799,8 +801,12 @@ class DoubleML(BaseEstModel):
 
     def _cal_x_prime(self, x, x_hat, v):
         x_diff = x - x_hat
-        v = np.hstack([np.ones((v.shape[0], 1)), v])
-        return nd_kron(x_diff, v)
+        return nd_kron(x_diff, self._add_const(v, x_diff.shape[0]))
+
+    @staticmethod
+    def _add_const(v, n):
+        const = np.ones((n, 1))
+        return const if v is None else np.hstack([const, v])
 
     # def __repr__(self) -> str:
     #     return f'Double Machine Learning Estimator'
-- 
2.43.0


From 851b6f4ee6544393975eca160362a6286f4b1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 029/171] fix: DoubleML supports class probabilities with cross
 fitting

---
 ylearn/estimator_model/double_ml.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 03744f5..baec2a4 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -676,7 +676,7 @@ class DoubleML(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            return self.y_model.classes_
+            return self.y_hat_dict["models"][0].classes_
         else:
             return None
 
@@ -706,8 +706,6 @@ class DoubleML(BaseEstModel):
             idx = np.arange(start=0, stop=wv.shape[0])
             fitted_result["train_test_id"].append((idx, idx))
         else:
-            fitted_result["paras"].append(np.ones_like(target) * np.nan)
-
             for i, (train_id, test_id) in enumerate(folds):
                 model_ = clone(model)
                 temp_wv = args[0][train_id]
@@ -716,6 +714,11 @@ class DoubleML(BaseEstModel):
                 model_.fit(temp_wv, target_train, **kwargs)
                 target_predict = model_.__getattribute__(pred_func)(temp_wv_test)
 
+                if i == 0:
+                    # one column per class when the probabilities are predicted
+                    shape = (len(target),) + target_predict.shape[1:]
+                    fitted_result["paras"].append(np.full(shape, np.nan))
+
                 fitted_result["models"].append(model_)
                 fitted_result["paras"][0][test_id] = target_predict
                 fitted_result["train_test_id"].append((train_id, test_id))
-- 
2.43.0


From bc035b92e88c7de057886af086127318449ecedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 030/171] fix: the outcome model of DoublyRobust sees the
 treatment level asked for

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..7c5c2aa 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -32,7 +32,7 @@ class _YModelWrapper:
 
         for i in range(self.x_d):
             x = np.zeros((n, self.x_d))
-            x[:, i] == 1
+            x[:, i] = 1
             x = np.concatenate((wv, x), axis=1)
             y_nji[:, :, i] = self.model.predict(x).reshape(n, self.y_d)
 
-- 
2.43.0


From 9cc44bb6d5e795ad8f0053957d63abc7ff82b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 031/171] fix: refitting DoublyRobust does not reuse the
 treatment encoder of the previous fit

---
 ylearn/estimator_model/doubly_robust.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 7c5c2aa..fe9bdeb 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -276,6 +276,10 @@ class DoublyRobust(BaseEstModel):
             categories = list(self.categories)
 
         # transform x into one_hot vectors
+        # forget the encoders of any previous fit
+        for name in ("ord_transformer", "oh_transformer"):
+            self.__dict__.pop(name, None)
+
         x = self.comp_transormer(x, categories=categories)
         self._x_d = x.shape[1]
         self._y_d = y.shape[1]
-- 
2.43.0


From 8e0ec2893e3d45a05fd10bc3b8fdd2175c8481a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 032/171] fix: DoubleML predicts a continuous treatment with
 predict when the outcome is a probability

---
 ylearn/estimator_model/double_ml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index baec2a4..e5b7de5 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -690,10 +690,9 @@ class DoubleML(BaseEstModel):
             # convert back to a vector with each dimension being a value
             # indicating the corresponding discrete value
             target_converted = convert4onehot(target)
-            pred_func = self.x_pred_func
         else:
             target_converted = target
-            pred_func = self.y_pred_func
+        pred_func = self.y_pred_func if is_ymodel else self.x_pred_func
 
         if folds is None:
             wv = args[0]
-- 
2.43.0


From d780ad2078ef541ba7f535a24842091474671906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 033/171] fix: DoubleML drops the baseline level, the effects
 of a discrete treatment were numerically arbitrary

---
 ylearn/estimator_model/double_ml.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index e5b7de5..797556d 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -653,8 +653,10 @@ class DoubleML(BaseEstModel):
         # f[i*vd:(i+1)*vd]
         # TODO: rewrite this with einsum
         coef = self.yx_model.coef_
-        # fij will be the desired treatment effect for treatment i on outcome j
-        fij = np.full((n, y_d, x_d), np.NaN)
+        # fij will be the desired treatment effect for treatment i on outcome j,
+        # the first level of a discrete treatment is the baseline
+        fij = np.zeros((n, y_d, x_d))
+        start = 1 if self.is_discrete_treatment else 0
 
         def cal_fij(coef_vec, v):
             coef_matrix = coef_vec.reshape(-1, v_d)
@@ -664,11 +666,11 @@ class DoubleML(BaseEstModel):
         if y_d > 1:
             for j in range(y_d):
                 for n, vn in enumerate(v):
-                    fij[n, j, :] = cal_fij(coef[j], vn)
+                    fij[n, j, start:] = cal_fij(coef[j], vn)
         else:
             coef_matrix = coef.reshape(-1, v_d)
             for n, vn in enumerate(v):
-                fij[n, 0, :] = coef_matrix.dot(vn.reshape(-1, 1)).reshape(1, -1)
+                fij[n, 0, start:] = coef_matrix.dot(vn.reshape(-1, 1)).reshape(1, -1)
 
         return fij
 
@@ -803,6 +805,10 @@ class DoubleML(BaseEstModel):
 
     def _cal_x_prime(self, x, x_hat, v):
         x_diff = x - x_hat
+        if self.is_discrete_treatment:
+            # the residuals of all levels sum to zero, the first level is the
+            # baseline because the coefs of a collinear design are arbitrary
+            x_diff = x_diff[:, 1:]
         return nd_kron(x_diff, self._add_const(v, x_diff.shape[0]))
 
     @staticmethod
-- 
2.43.0


From 33cd76e93832a6ebbebb942086c85e28debc69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 034/171] fix: NP2SLS reports average effects

---
 ylearn/estimator_model/iv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..95efc53 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -252,9 +252,9 @@ class NP2SLS(BaseEstModel):
             assert (
                 self.covariate is not None
             ), "Need caovariate to compute the CATE in this case."
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         if quantity == "ATE":
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         elif quantity is None:
             return yt - y0
         else:
-- 
2.43.0


From 833a64c45a77e30e23a2c028f81ac809dcfc2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 035/171] fix: NP2SLS accepts discrete instruments together
 with other variables

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 95efc53..ecfe526 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -169,7 +169,7 @@ class NP2SLS(BaseEstModel):
         if self.is_discrete_instrument:
             self.instrument_transformer = OneHotEncoder()
             self.instrument_transformer.fit(z)
-            z = self.instrument_transformer.transform(z)
+            z = self.instrument_transformer.transform(z).toarray()
 
         if isinstance(treatment_basis, list) or isinstance(treatment_basis, tuple):
             method, degree = treatment_basis[0], treatment_basis[1]
-- 
2.43.0


From 4e5b986f335b1dfe7782c564c14aef9ed458db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 036/171] fix: NP2SLS can be fitted without covariates

---
 ylearn/estimator_model/iv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ecfe526..d605d98 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -194,7 +194,9 @@ class NP2SLS(BaseEstModel):
         # get expansion basis functions for parameters
         x_transformed = self._x_basis_func.fit_transform(x)
         z_transformed = self._z_basis_func.fit_transform(z)
-        v_transformed = self._v_basis_func.fit_transform(v)
+        v_transformed = (
+            self._v_basis_func.fit_transform(v) if v is not None else None
+        )
 
         self._v_transformed = v_transformed
         self._w = w
-- 
2.43.0


From c6a5c6d9497c0e94a72f12d6ac0c3df4c5f69d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 037/171] fix: NP2SLS.effect_nji

---
 ylearn/estimator_model/iv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index d605d98..9c7d474 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -283,7 +283,7 @@ class NP2SLS(BaseEstModel):
 
                     y_nji[:, :, treat] = y_pred
 
-                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, aixs=2)
+                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, axis=2)
             else:
                 labels = [
                     np.arange(len(i)) for i in self.treatment_transformer.categories_
@@ -305,14 +305,16 @@ class NP2SLS(BaseEstModel):
                 )
 
         else:
-            yt, y0 = self._prepare4est(data=data, marginal_effect=False)
+            yt, y0 = self._prepare4est(
+                data=data, treat=None, control=None, marginal_effect=False
+            )
             # TODO: the definition of effect_nji may need to be modified in the future verison in this case
             if yt.ndim == 1:
                 yt = yt.reshape(-1, 1)
                 y0 = y0.reshape(-1, 1)
 
             n, y_d = yt.shape
-            y_nji = np.full(n, y_d, 2)
+            y_nji = np.full((n, y_d, 2), np.nan)
 
             y_nji[:, :, 0] = y0
             y_nji[:, :, 1] = yt
-- 
2.43.0


From 0b1f5e5094e07beb2c54d2d1a532b96d508c44d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 038/171] fix: counterfactual outcomes of NP2SLS for the
 training data and for discrete treatments

---
 ylearn/estimator_model/iv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 9c7d474..b6c8ff6 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -198,6 +198,7 @@ class NP2SLS(BaseEstModel):
             self._v_basis_func.fit_transform(v) if v is not None else None
         )
 
+        self._x = x
         self._v_transformed = v_transformed
         self._w = w
 
@@ -332,7 +333,7 @@ class NP2SLS(BaseEstModel):
         marginal_effect,
         quantity=None,
     ):
-        v, w, x, n = self._check_data(data=data)
+        v, w, x, n = self._check_data(data=data, quantity=quantity)
 
         if quantity != "CF":
             if treat is not None:
@@ -416,17 +417,19 @@ class NP2SLS(BaseEstModel):
 
         return yt, y0
 
-    def _check_data(self, data):
+    def _check_data(self, data, quantity=None):
         if data is None:
             v = self._v_transformed
             w = self._w
-            x = None
+            x = self._x
             n = self._n
         else:
             w, x, v = convert2array(
                 data, self.adjustment, self.treatment, self.covariate
             )
             v = self._v_basis_func.transform(v) if v is not None else None
+            if quantity == "CF" and self.is_discrete_treatment:
+                x = self.treatment_transformer.transform(x)
 
             n = len(data)
 
-- 
2.43.0


From 47a7da73de8b65c560f3ce965023ea0c7d470d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 039/171] fix: NP2SLS accepts any labels of discrete treatments

---
 ylearn/estimator_model/iv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index b6c8ff6..cfb5861 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -336,13 +336,18 @@ class NP2SLS(BaseEstModel):
         v, w, x, n = self._check_data(data=data, quantity=quantity)
 
         if quantity != "CF":
+            # labels keep their type
+            dtype = object if self.is_discrete_treatment else None
+
             if treat is not None:
                 if not isinstance(treat, np.ndarray):
-                    treat = np.array([treat]).reshape(1, -1)
+                    treat = np.array([treat], dtype=dtype).reshape(1, -1)
                 # assert (
                 #     treat.shape[1] == self._x_d
                 # ), f"Expect dimension of treat as {self._x_d}, but was given {treat.shape[1]}"
                 treat = treat.reshape(-1, self._x_d)
+                if self.is_discrete_treatment:
+                    treat = self.treatment_transformer.transform(treat)
             else:
                 treat = np.array([[1 for i in range(self._x_d)]])
 
@@ -356,11 +361,13 @@ class NP2SLS(BaseEstModel):
 
             if control is not None:
                 if not isinstance(control, np.ndarray):
-                    control = np.array([control]).reshape(1, -1)
+                    control = np.array([control], dtype=dtype).reshape(1, -1)
                 control = control.reshape(-1, self._x_d)
                 # assert (
                 #     control.shape[1] == self._x_d
                 # ), f"Expect dimension of control as {self._x_d}, but was given {control.shape[1]}"
+                if self.is_discrete_treatment:
+                    control = self.treatment_transformer.transform(control)
             else:
                 control = np.array([[0 for i in range(self._x_d)]])
 
@@ -372,9 +379,6 @@ class NP2SLS(BaseEstModel):
                     x0.shape[0] == n
                 ), f"The number of control {x0.shape[0]} does not match the number of the samples"
 
-            if self.is_discrete_treatment:
-                xt = self.treatment_transformer.transform(xt)
-                x0 = self.treatment_transformer.transform(x0)
             # else:
             #     if treat is not None and not isinstance(treat, np.ndarray):
             #         treat = np.array([treat]).reshape(-1, 1)
-- 
2.43.0


From 498d523953009048841bd64d85077efed25a5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 040/171] fix: covar_basis of NP2SLS can be a list as the other
 basis options

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index cfb5861..606b1ae 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -183,7 +183,7 @@ class NP2SLS(BaseEstModel):
         else:
             self._z_basis_func = deepcopy(instrument_basis)
 
-        if isinstance(covar_basis, str) or isinstance(covar_basis, tuple):
+        if isinstance(covar_basis, list) or isinstance(covar_basis, tuple):
             method, degree = covar_basis[0], covar_basis[1]
             self._v_basis_func = self.get_basis_func(degree, method, v, **kwargs)
         else:
-- 
2.43.0


From 2de19a7ff831195d1440699862c55eb0a2f5c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 041/171] fix: NP2SLS drops linearly dependent basis functions,
 the effects of binary variables were numerically arbitrary

---
 ylearn/estimator_model/iv.py | 39 +++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 606b1ae..72bed95 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -2,6 +2,7 @@ from copy import deepcopy
 
 import numpy as np
 
+from sklearn import clone
 from sklearn.linear_model import LinearRegression
 from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder, PolynomialFeatures
 
@@ -36,6 +37,38 @@ from .utils import convert2array, nd_kron, get_wv, cartesian
 #         pass
 
 
+class _IndependentPolynomialFeatures(PolynomialFeatures):
+    """Polynomial features without the linearly dependent ones.
+
+    For example, all the powers of a binary variable coincide. The coefs of such
+    features are arbitrary and usually so large that the effects drown in
+    rounding errors.
+    """
+
+    def fit_transform(self, X, y=None, **fit_params):
+        features = super().fit(X, y).transform(X, all_features=True)
+        basis = np.zeros((features.shape[0], 0))
+        self._support = []
+
+        for i, f in enumerate(features.T):
+            norm = np.linalg.norm(f)
+            if norm == 0:
+                continue
+            f = f / norm
+            for _ in range(2):
+                f = f - basis @ (basis.T @ f)
+            norm = np.linalg.norm(f)
+            if norm > 1e-12:
+                basis = np.column_stack([basis, f / norm])
+                self._support.append(i)
+
+        return features[:, self._support]
+
+    def transform(self, X, all_features=False):
+        features = super().transform(X)
+        return features if all_features else features[:, self._support]
+
+
 class NP2SLS(BaseEstModel):
     r"""
     See Instrumental variable estimation of nonparametric models
@@ -82,8 +115,8 @@ class NP2SLS(BaseEstModel):
         categories : str, optional
             by default 'auto'
         """
-        self.x_model = LinearRegression() if x_model is None else x_model
-        self.y_model = LinearRegression() if y_model is None else y_model
+        self.x_model = LinearRegression() if x_model is None else clone(x_model)
+        self.y_model = LinearRegression() if y_model is None else clone(y_model)
 
         super().__init__(
             random_state, is_discrete_treatment, is_discrete_outcome, categories
@@ -448,7 +481,7 @@ class NP2SLS(BaseEstModel):
             raise ValueError(f"Do not support {func} currently.")
 
     def _poly_basis_func(self, degree, para, **kwargs):
-        poly = PolynomialFeatures(degree=degree, **kwargs)
+        poly = _IndependentPolynomialFeatures(degree=degree, **kwargs)
         return poly
 
     def _hermite_basis_func(self, degree, para, **kwargs):
-- 
2.43.0


From 5dda66f9af7526eface405c73397c1fcce655005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 042/171] fix: DeepIV gives the compared treatments to every
 row

---
 ylearn/estimator_model/deepiv.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 1f51c01..4575845 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -804,29 +804,26 @@ class DeepIV(BaseEstModel):
             )[0]
 
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
-
-        y_nji = torch.full((n, self._y_d, self._x_d))
+        treat_num = self._x_d if self.is_discrete_treatment else 2
+        y_nji = torch.zeros((n, self._y_d, treat_num))
 
         if self.is_discrete_treatment:
             for treat in range(self._x_d):
-                treat_id = (torch.ones(n, ) * treat).int()
-
-                xt = ones.index_select(dim=0, index=treat_id)
+                xt = torch.eye(self._x_d)[torch.full((n,), treat)]
                 y_pred = self.y_net.predict(xt, w)
                 y_nji[:, :, treat] = y_pred.reshape(n, self._y_d)
 
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, self._x_d))
         else:
-            xt = ones * 1
-            x0 = ones * 0
+            xt = torch.ones(n, self._x_d)
+            x0 = torch.zeros(n, self._x_d)
             y_nji[:, :, 0] = self.y_net.predict(x0, w)
             y_nji[:, :, 1] = self.y_net.predict(xt, w)
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, 2))
 
         y_nji = y_nji - y_ctrl
 
-        return y_nji
+        return y_nji.detach().numpy()
 
     def _prepare4est(
         self,
@@ -850,20 +847,18 @@ class DeepIV(BaseEstModel):
                 convert2array(data, self.adjustment)[0]
             )[0]
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
 
         if self.is_discrete_treatment:
-            # build the one_hot vector for treatment vector
-            treat_id = (torch.ones(n, ) * treat).int()
-
-            # build treatment vector xt and control vector x0
-            xt = ones.index_select(dim=0, index=treat_id)
-            x0 = ones.index_select(dim=0, index=torch.zeros(n, ).int())
+            # build the one_hot vectors for treatment vector xt and control
+            # vector x0
+            levels = torch.eye(self._x_d)
+            xt = levels[torch.full((n,), int(treat))]
+            x0 = levels[torch.full((n,), int(control))]
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
-            xt = ones * treat
-            x0 = ones * control
+            xt = torch.ones(n, self._x_d) * treat
+            x0 = torch.ones(n, self._x_d) * control
             xt.requires_grad = True
 
             yt = self.y_net.predict(xt, w)
-- 
2.43.0


From 7430418cb36d5532038931952e1fc865b19adca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 043/171] fix: marginal effects of DeepIV

---
 ylearn/estimator_model/deepiv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 4575845..9e5c0c6 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -864,7 +864,13 @@ class DeepIV(BaseEstModel):
             yt = self.y_net.predict(xt, w)
 
             if marginal_effect:
-                return (xt.grad.detach(), )
+                grads = [
+                    torch.autograd.grad(
+                        yt[:, j].sum(), xt, retain_graph=True
+                    )[0] for j in range(yt.shape[1])
+                ]
+                # has the shape (n, y_d, x_d)
+                return (torch.stack(grads, dim=1), )
             else:
                 y0 = self.y_net.predict(x0, w)
                 return (yt, y0)
-- 
2.43.0


From 9452a658491c7f3eef2de905cfb624c17171664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 044/171] fix: DeepIV.estimate returns the effects of the
 examples if quantity is None

---
 ylearn/estimator_model/deepiv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 9e5c0c6..f5ede0a 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -928,9 +928,8 @@ class DeepIV(BaseEstModel):
 
         if quantity == 'CATE' or quantity == 'ATE':
             return (yt - y0).mean(dim=0) if y0 is not None else yt.mean(dim=0)
-        # elif quantity == 'Counterfactual prediction':
         else:
-            return yt
+            return yt - y0 if y0 is not None else yt
 
     def _gen_x_model(self, x_model, *args, **kwargs):
         hidden_d_list = kwargs.pop('hidden_d', [64, 128, 64])
-- 
2.43.0


From d290ecb9addfa21b140510d2c473beb1089bbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 045/171] fix: DeepIV accepts a given outcome net

---
 ylearn/estimator_model/deepiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index f5ede0a..87942ac 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -958,6 +958,6 @@ class DeepIV(BaseEstModel):
 
         if y_model is None:
             assert any(args), 'Need parameters to define an outcome net.'
-            y_net = Net(*args, **kwargs)
+            y_model = Net(*args, **kwargs)
 
-        return NetWrapper(y_net, is_y_net=True)
+        return NetWrapper(y_model, is_y_net=True)
-- 
2.43.0


From 541d27c91f9a85d56b35464de901cc91a81f13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 046/171] fix: DeepIV can be fitted without adjustment

---
 ylearn/estimator_model/deepiv.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 87942ac..9bd4a5b 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -744,6 +744,8 @@ class DeepIV(BaseEstModel):
             y = self.y_transformer.transform(y).toarray()
 
         y, x, w, z = convert2tensor(y, x, w, z)
+        if w is None:
+            w = z[:, :0].to(y.dtype)
         self.w = w
         self._y_d, self._x_d, self._w_d, self._z_d = shapes(
             y, x, w, z, all_dim=False
@@ -796,13 +798,7 @@ class DeepIV(BaseEstModel):
         if not hasattr(self, 'x_net') or not hasattr(self, 'y_net'):
             raise Exception('The estimator is not fitted yet.')
 
-        if data is None:
-            w = self.w
-        else:
-            w = convert2tensor(
-                convert2array(data, self.adjustment)[0]
-            )[0]
-
+        w = self._get_w(data)
         n = w.shape[0]
         treat_num = self._x_d if self.is_discrete_treatment else 2
         y_nji = torch.zeros((n, self._y_d, treat_num))
@@ -825,6 +821,16 @@ class DeepIV(BaseEstModel):
 
         return y_nji.detach().numpy()
 
+    def _get_w(self, data=None):
+        if data is None:
+            return self.w
+
+        w = convert2tensor(convert2array(data, self.adjustment)[0])[0]
+        if w is None:
+            w = self.w.new_zeros((len(data), 0))
+
+        return w
+
     def _prepare4est(
         self,
         data=None,
@@ -840,12 +846,7 @@ class DeepIV(BaseEstModel):
         treat = 1 if treat is None else treat
         control = 0 if control is None else control
 
-        if data is None:
-            w = self.w
-        else:
-            w = convert2tensor(
-                convert2array(data, self.adjustment)[0]
-            )[0]
+        w = self._get_w(data)
         n = w.shape[0]
 
         if self.is_discrete_treatment:
-- 
2.43.0


From e345f2549e9a0c8b6561b09123f0bbf98da8d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 047/171] fix: DeepIV trains its outcome net with all the
 sampled treatments

---
 ylearn/estimator_model/deepiv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 9bd4a5b..4f7e96c 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -776,6 +776,9 @@ class DeepIV(BaseEstModel):
         self.x_net.fit(z, w, target=x, **x_net_config)
 
         # Step 2: generate new samples if calculating grad approximately
+        if sample_n is None or not approx_grad:
+            sample_n = 1
+
         if approx_grad:
             x_sampled = self.x_net._sample(z, w, sample_n)
         else:
@@ -787,6 +790,7 @@ class DeepIV(BaseEstModel):
             w_sampled = w
         else:
             w_sampled = w.repeat(sample_n, 1) if w is not None else None
+            y = y.repeat(sample_n, 1)
 
         # TODO: be careful here
         self.y_net.fit(x_sampled, w_sampled, target=y, **y_net_config)
-- 
2.43.0


From b0310fab332f0a495fc9dacc2d1c59fc8573ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 048/171] fix: DeepIV with discrete treatments can be trained
 with batches

---
 ylearn/estimator_model/deepiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 4f7e96c..6d36de0 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -509,7 +509,7 @@ class NetWrapper:
             return self.model(x, w)
 
     def _sample(self, x, w, sample_n):
-        return self.predict_proba(x, w)
+        return self.predict_proba(x, w).detach()
 
 
 # We are now ready to build the complete model with above wrapped outcome and
-- 
2.43.0


From dd124ba550bb7ba0e8247e7680409f627fc5fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 049/171] fix: DeepIV accepts discrete instruments of
 continuous treatments

---
 ylearn/estimator_model/deepiv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 6d36de0..119ee7f 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -274,6 +274,12 @@ class MDNWrapper:
                 optimizer.step()
             print(f'Finished {e+1}/{epoch} epochs | current loss {loss.data}')
 
+    def _forward(self, z, w):
+        if self.is_discrete_input:
+            z = torch.argmax(z, dim=1)
+
+        return self.model(z, w)
+
     def predict_log_prob(self, z, w, target):
         """Calculate the probability density P(y|X) with the trained mixture density
             network.
@@ -292,7 +298,7 @@ class MDNWrapper:
         tensor
             The probability density p(y|X) evaluated with the trained mdn.
         """
-        pi, mu, sigma = self.model(z, w)
+        pi, mu, sigma = self._forward(z, w)
         log_prob = self.mg(pi, mu, sigma).log_prob(target)
         return log_prob
 
@@ -300,7 +306,7 @@ class MDNWrapper:
         return torch.exp(self.predict_log_prob(z, w, target))
 
     def predict_cdf(self, z, w, target):
-        pi, mu, sigma = self.model(z, w)
+        pi, mu, sigma = self._forward(z, w)
         return self.mg(pi, mu, sigma).cdf(target)
 
     def _sample(self, z, w, sample_n):
@@ -321,7 +327,7 @@ class MDNWrapper:
         tensor
             Shape (b*sample_num, out_d).
         """
-        pi, mu, sigma = self.model(z, w)
+        pi, mu, sigma = self._forward(z, w)
         mg = self.mg(pi, mu, sigma)
         sampled = mg.sample((sample_n, ))
         return sampled.reshape(-1, self._out_d)
-- 
2.43.0


From 3230840532545697622df03d09cadfcc95e99952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 050/171] fix: DeepIV honours its random_state

---
 ylearn/estimator_model/deepiv.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 119ee7f..31922d6 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -715,6 +715,26 @@ class DeepIV(BaseEstModel):
         """
         assert instrument is not None, 'instrument is required.'
 
+        with torch.random.fork_rng(devices=[]):
+            torch.manual_seed(self.random_state)
+            return self._fit(
+                data, outcome, treatment, instrument, adjustment,
+                approx_grad, sample_n, x_net_config, y_net_config, **kwargs
+            )
+
+    def _fit(
+        self,
+        data,
+        outcome,
+        treatment,
+        instrument,
+        adjustment,
+        approx_grad,
+        sample_n,
+        x_net_config,
+        y_net_config,
+        **kwargs
+    ):
         super().fit(data, outcome, treatment,
                     adjustment=adjustment,
                     instrument=instrument,
-- 
2.43.0


From 3dff56a6595b260d67da77c670332fcabffc0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 051/171] fix: the estimator factory's DeepIV accepts frames
 with other columns than floats

---
 ylearn/estimator_model/_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index df8717e..80e4f10 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -333,13 +333,19 @@ try:
                 effect = effect.detach().numpy()
             return effect
 
+        def effect_nji(self, data=None, *args, **kwargs):
+            if data is not None:
+                data = self._f64to32(data)
+
+            return super().effect_nji(data, *args, **kwargs)
+
         @staticmethod
         def _f64to32(data):
             assert isinstance(data, pd.DataFrame)
             data_f64 = data.select_dtypes(include='float64')
             if len(data_f64.columns) > 0:
                 data = data.copy()
-                data[data.columns] = data_f64.astype('float32')
+                data[data_f64.columns] = data_f64.astype('float32')
             return data
 
 except ImportError as e:
-- 
2.43.0


From 0fa0c31a7bb036cf93be586934293dfc04e37998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 052/171] fix: NP2SLS drops the baseline level of discrete
 instruments, the first stage was collinear with its intercept

---
 ylearn/estimator_model/iv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 72bed95..342858d 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -200,7 +200,8 @@ class NP2SLS(BaseEstModel):
             x = self.treatment_transformer.transform(x)
 
         if self.is_discrete_instrument:
-            self.instrument_transformer = OneHotEncoder()
+            # the design has an intercept already
+            self.instrument_transformer = OneHotEncoder(drop='first')
             self.instrument_transformer.fit(z)
             z = self.instrument_transformer.transform(z).toarray()
 
-- 
2.43.0


From 1a58590fcb8a17bfe6ff0fce09dde9f884ca17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 053/171] fix: NP2SLS predicts constant basis functions
 exactly, rounding errors made the effects arbitrary

---
 ylearn/estimator_model/iv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 342858d..25e5f7c 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -248,6 +248,9 @@ class NP2SLS(BaseEstModel):
 
         # stage 2: fit the y_model on x, and w, v
         x_hat = self.x_model.predict(zvw)
+        # keep constants exact, their rounding errors are no regressors
+        constant = np.ptp(x_transformed, axis=0) == 0
+        x_hat[:, constant] = x_transformed[:, constant]
 
         if v_transformed is not None:
             xv = nd_kron(x_hat, v_transformed)
-- 
2.43.0


From f5a7a4c2af4c95f9935c53fc347fd4e1f65d04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 054/171] fix: constant columns of the NP2SLS designs come
 last, the least squares were numerically unstable otherwise

---
 ylearn/estimator_model/iv.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 25e5f7c..9c430f7 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -241,7 +241,8 @@ class NP2SLS(BaseEstModel):
         else:
             zv = z_transformed
 
-        zvw = get_wv(zv, w, np.ones((zv.shape[0], 1)))
+        zvw = get_wv(zv, w)
+        zvw = self._intercept_last(zvw, np.ptp(zvw, axis=0) > 0)
 
         # stage 1: fit the x_model on z and w, v
         self.x_model.fit(zvw, x_transformed)
@@ -257,7 +258,9 @@ class NP2SLS(BaseEstModel):
         else:
             xv = x_hat
 
-        xvw = get_wv(xv, w, np.ones((xv.shape[0], 1)))
+        xvw = get_wv(xv, w)
+        self._varying = np.ptp(xvw, axis=0) > 0
+        xvw = self._intercept_last(xvw, self._varying)
         self.y_model.fit(xvw, y)
 
         # set _is_fitted as True
@@ -303,6 +306,13 @@ class NP2SLS(BaseEstModel):
             ), f'quantity should be one of "ATE", "CATE", "CF", and None, but was given {quantity}'
             return yt  # counterfactuals
 
+    @staticmethod
+    def _intercept_last(design, varying):
+        # the least squares of scikit-learn are numerically unstable if
+        # constant columns precede the others
+        ones = np.ones((design.shape[0], 1))
+        return np.concatenate((design[:, varying], ones), axis=1)
+
     def effect_nji(self, data=None):
         if self.is_discrete_treatment:
             v, w, x, n = self._check_data(data=data)
@@ -316,7 +326,7 @@ class NP2SLS(BaseEstModel):
                     # xt = self._x_basis_func.fit_transform(xt)
                     xt = self._x_basis_func.transform(xt)
                     xv_t = nd_kron(xt, v) if v is not None else xt
-                    xvw_t = get_wv(xv_t, w, np.ones((n, 1)))
+                    xvw_t = self._intercept_last(get_wv(xv_t, w), self._varying)
                     y_pred = self.y_model.predict(xvw_t).reshape(-1, self._y_d)
 
                     y_nji[:, :, treat] = y_pred
@@ -333,7 +343,7 @@ class NP2SLS(BaseEstModel):
                     xt = np.repeat(treat.reshape(1, -1), n, axis=0)
                     xt = self._x_basis_func.transform(xt)
                     xv_t = nd_kron(xt, v) if v is not None else xt
-                    xvw_t = get_wv(xv_t, w, np.ones((n, 1)))
+                    xvw_t = self._intercept_last(get_wv(xv_t, w), self._varying)
                     y_pred = self.y_model.predict(xvw_t).reshape(-1, self._y_d)
 
                     y_nji[:, :, i] = y_pred
@@ -450,8 +460,8 @@ class NP2SLS(BaseEstModel):
             xv_t = xt
             xv_0 = x0
 
-        xvw_t = get_wv(xv_t, w, np.ones((n, 1)))
-        xvw_0 = get_wv(xv_0, w, np.ones((n, 1)))
+        xvw_t = self._intercept_last(get_wv(xv_t, w), self._varying)
+        xvw_0 = self._intercept_last(get_wv(xv_0, w), self._varying)
 
         yt = self.y_model.predict(xvw_t)
         y0 = self.y_model.predict(xvw_0)
-- 
2.43.0


From 5c866ec9e5f4ec6c7490f1505303dadb9ec1175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 055/171] fix: refitting ApproxBound does not reuse the encoder
 and the probabilities of the previous fit

---
 ylearn/estimator_model/approximation_bound.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..fdf4084 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -131,6 +131,7 @@ class ApproxBound(BaseEstModel):
             covariate=covariate,
             is_discrete_covariate=is_discrete_covariate
         )
+        self._is_fitted = False
 
         y, x, v = convert2array(data, outcome, treatment, covariate)
         # self._y_max = y.max(axis=0)
@@ -160,13 +161,13 @@ class ApproxBound(BaseEstModel):
                     v = OneHotEncoder().fit_transform(v)
 
                 self.x_model.fit(v, self.x_label)
-                self.x_prob = self.x_model.predict_proba(v)
+                self._x_prob = self.x_model.predict_proba(v)
             else:
-                self.x_prob = np.unique(self.x_label, return_counts=True)[1]
-                self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+                self._x_prob = np.unique(self.x_label, return_counts=True)[1]
+                self._x_prob = (self._x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
-            self.x_prob = self.x_prob.reshape(1, -1)
+            self._x_prob = np.array(self.x_prob).reshape(1, -1)
 
         self._v = v
         xv = get_wv(x_one_hot, v)
@@ -312,7 +313,7 @@ class ApproxBound(BaseEstModel):
         y_lower,
     ):
         # x_d = self._x_d
-        x_prob = self.x_prob
+        x_prob = self._x_prob
 
         treat = get_tr_ctrl(
             treat,
-- 
2.43.0


From 9f4811434822277d6f91892e6f93c8a898735d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 056/171] fix: ApproxBound uses the given treatment
 probabilities for new data too

---
 ylearn/estimator_model/approximation_bound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index fdf4084..a70f55c 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -350,7 +350,8 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
-                x_prob = self.x_model.predict_proba(v)
+                if self.x_prob is None:
+                    x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
         y_ctrl = get_groups(control, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From efc0afd48b35f80d8024107f3edcc81113f4bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 057/171] fix: ApproxBound encodes discrete covariates for all
 its models and for new data

---
 ylearn/estimator_model/approximation_bound.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index a70f55c..2975663 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -155,11 +155,12 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
+        if v is not None and self.is_discrete_covariate:
+            self.v_transformer = OneHotEncoder().fit(v)
+            v = self.v_transformer.transform(v).toarray()
+
         if self.x_prob is None:
             if v is not None:
-                if self.is_discrete_covariate:
-                    v = OneHotEncoder().fit_transform(v)
-
                 self.x_model.fit(v, self.x_label)
                 self._x_prob = self.x_model.predict_proba(v)
             else:
@@ -350,6 +351,9 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
+                if self.is_discrete_covariate:
+                    v = self.v_transformer.transform(v).toarray()
+
                 if self.x_prob is None:
                     x_prob = self.x_model.predict_proba(v)
 
-- 
2.43.0


From 74684f77bd3d8701c16fe39a3028fab4ea637226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 058/171] fix: the default outcome range of ApproxBound is the
 observed one, not the one of the compared groups of the test data

---
 ylearn/estimator_model/approximation_bound.py | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 2975663..e9c16f1 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -4,7 +4,7 @@ from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
 
 from .base_models import BaseEstModel
 from .utils import (convert2array, get_wv, convert4onehot,
-                    get_tr_ctrl, cartesian, get_groups)
+                    get_tr_ctrl, cartesian)
 
 
 class ApproxBound(BaseEstModel):
@@ -332,38 +332,22 @@ class ApproxBound(BaseEstModel):
         if self.covariate is None:
             n = 1
             v = None
-            if data is None:
-                y = self._y
-                x = self.x_label
-                # y_upper = y.max(axis=0) if y_upper is None else y_upper
-                # y_lower = y.min(axis=0) if y_lower is None else y_lower
-            else:
-                y, x = convert2array(data, self.outcome, self.treatment)
-                x = convert4onehot(self.comp_transormer(x,))
         else:
             if data is None:
                 v = self._v
-                y = self._y
-                x = self.x_label
                 n = self._n
             else:
-                y, v, x = convert2array(
-                    data, self.outcome, self.covariate, self.treatment
-                )
-                n = y.shape[0]
+                v = convert2array(data, self.covariate)[0]
+                n = v.shape[0]
                 if self.is_discrete_covariate:
                     v = self.v_transformer.transform(v).toarray()
 
                 if self.x_prob is None:
                     x_prob = self.x_model.predict_proba(v)
 
-        y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
-        y_ctrl = get_groups(control, x.reshape(-1, 1), False, y)[0]
-        y_tr_max, y_tr_min = y_treat.max(axis=0), y_treat.min(axis=0)
-        y_ctrl_max, y_ctrl_min = y_ctrl.max(axis=0), y_ctrl.min(axis=0)
-
-        y_upper = max(y_tr_max, y_ctrl_max) if y_upper is None else y_upper
-        y_lower = min(y_tr_min, y_ctrl_min) if y_lower is None else y_lower
+        # the observed range of the outcome
+        y_upper = self._y.max(axis=0) if y_upper is None else y_upper
+        y_lower = self._y.min(axis=0) if y_lower is None else y_lower
 
         # TODO: modify the following line for multiple treatment
         xt, x0 = np.zeros((n, self._x_d)), np.zeros((n, self._x_d))
-- 
2.43.0


From fb20b65309112558c02cc6154ee17dd5ae3e56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 059/171] fix: optimal selection bounds of ApproxBound

---
 ylearn/estimator_model/approximation_bound.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index e9c16f1..409c21f 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -366,11 +366,14 @@ class ApproxBound(BaseEstModel):
         lower = xt_prob * yt + (1 - xt_prob) * y_lower \
             - (1 - x0_prob) * y_upper - x0_prob * y0
 
-        optimal_upper1 = xt_prob * yt - (1 - x0_prob) * y_lower \
-            + (1 - xt_prob - x0_prob) * y_upper
-        optimal_lower1 = x0_prob * lower - x0_prob * y0
-        optimal_upper2 = yt - xt_prob * lower - x0_prob * y0
-        optimal_lower2 = xt_prob * yt + x0_prob * lower - y0
-
-        return ((upper, lower), (optimal_upper1, optimal_lower1),
-                (optimal_upper2, optimal_lower2))
+        # units which take neither of the compared treatments
+        other = (1 - xt_prob - x0_prob) * (y_upper - y_lower)
+        optimal_upper1 = xt_prob * yt - xt_prob * y_lower + other
+        optimal_lower1 = x0_prob * y_lower - x0_prob * y0 - other
+        optimal_upper2 = (xt_prob + x0_prob) * yt \
+            - xt_prob * y_lower - x0_prob * y0 + other
+        optimal_lower2 = xt_prob * yt + x0_prob * y_lower \
+            - (xt_prob + x0_prob) * y0 - other
+
+        return ((upper, lower), (optimal_lower1, optimal_upper1),
+                (optimal_lower2, optimal_upper2))
-- 
2.43.0


From 0657f60390a46787a3a2441d3af665b7bd033ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 060/171] fix: ApproxBound assigns the treatment probabilities
 to their levels if some level is not observed

---
 ylearn/estimator_model/approximation_bound.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 409c21f..3be3a96 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -162,9 +162,11 @@ class ApproxBound(BaseEstModel):
         if self.x_prob is None:
             if v is not None:
                 self.x_model.fit(v, self.x_label)
-                self._x_prob = self.x_model.predict_proba(v)
+                self._x_prob = self._predict_prob(v)
             else:
-                self._x_prob = np.unique(self.x_label, return_counts=True)[1]
+                self._x_prob = np.bincount(
+                    self.x_label, minlength=self._x_d
+                )
                 self._x_prob = (self._x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
@@ -305,6 +307,13 @@ class ApproxBound(BaseEstModel):
 
         return x
 
+    def _predict_prob(self, v):
+        # levels which are not observed have the probability 0
+        x_prob = np.zeros((v.shape[0], self._x_d))
+        x_prob[:, self.x_model.classes_] = self.x_model.predict_proba(v)
+
+        return x_prob
+
     def _prepare4est(
         self,
         data,
@@ -343,7 +352,7 @@ class ApproxBound(BaseEstModel):
                     v = self.v_transformer.transform(v).toarray()
 
                 if self.x_prob is None:
-                    x_prob = self.x_model.predict_proba(v)
+                    x_prob = self._predict_prob(v)
 
         # the observed range of the outcome
         y_upper = self._y.max(axis=0) if y_upper is None else y_upper
-- 
2.43.0


From a499679b4b83cb63dc3ffbebb72bdf30124ecdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 061/171] fix: ApproxBound bounds the effects on several
 outcomes

---
 ylearn/estimator_model/approximation_bound.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 3be3a96..d91999c 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -370,6 +370,9 @@ class ApproxBound(BaseEstModel):
         xt_prob = x_prob[:, treat]
         x0_prob = x_prob[:, control]
 
+        if yt.ndim > 1:
+            xt_prob, x0_prob = xt_prob.reshape(-1, 1), x0_prob.reshape(-1, 1)
+
         upper = xt_prob * yt + (1 - xt_prob) * y_upper \
             - (1 - x0_prob) * y_lower - x0_prob * y0
         lower = xt_prob * yt + (1 - xt_prob) * y_lower \
-- 
2.43.0


From 3cab2bba5a3c022159137f7703a39064e1777f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 062/171] fix: CausalTree ignored the control rows: their zero
 weight dropped them from the tree

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 5 ++---
 ylearn/estimator_model/causal_tree.py           | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index ab5964b..610b419 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -160,9 +160,8 @@ cdef class HonestCMSE(RegressionCriterion):
                 y0_sum_total += y_ik
                 y0_sq_sum_total += y_ik * y_ik
                 n0_total +=1
-            #
-            weighted_n_node_samples += w
-            #
+            # the sign of the weight only tells the group of the row
+            weighted_n_node_samples += 1.0
 
         self.nt_total = nt_total
         self.n0_total = n0_total
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 18947e4..d603017 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -439,7 +439,7 @@ class CausalTree(BaseEstModel):
         for i, leaf_node in enumerate(leaf_collection):
             ar = leafs == leaf_node
             y_sub, x_sub = y[ar], x[ar]
-            y_sub_tr, y_sub_ctrl = y_sub[x_sub == 1], y_sub[x_sub == 0]
+            y_sub_tr, y_sub_ctrl = y_sub[x_sub > 0], y_sub[x_sub < 0]
             if y_sub_tr.size == 0 or y_sub_ctrl.size == 0:
                 pass
             else:
@@ -752,7 +752,9 @@ class CausalTree(BaseEstModel):
         label = np.any((_tr, _crtl), axis=0)
         y = y[label]
         wv = wv[label]
-        sample_weight = _tr[label].astype(int)
+        # the sign tells the criterion the group of a row; the splitter drops the
+        # rows whose weight is zero
+        sample_weight = np.where(_tr[label], 1, -1)
 
         check_scalar(
             self.ccp_alpha,
-- 
2.43.0


From b2be6f44755f503adf251e3f45e87c5bb3b8ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 063/171] fix: the causal tree criterion lost its precision to
 a constant of 1e10 and split into leaves without one of the groups

---
 .../estimator_model/_tree/tree_criterion.pxd  |   5 +
 .../estimator_model/_tree/tree_criterion.pyx  | 149 +++++++-----------
 ylearn/estimator_model/causal_tree.py         |   4 +
 3 files changed, 70 insertions(+), 88 deletions(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pxd b/ylearn/estimator_model/_tree/tree_criterion.pxd
index 2f5762d..28bb980 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pxd
+++ b/ylearn/estimator_model/_tree/tree_criterion.pxd
@@ -26,3 +26,8 @@ cdef class HonestCMSE(RegressionCriterion):
 
     cdef int nt_right
     cdef int n0_right
+
+    cdef double offset
+
+    cdef double honest_mse(self, int nt, int n0, double yt_sum, double y0_sum,
+                           double yt_sq_sum, double y0_sq_sum) nogil
diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index 610b419..3f6ed31 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -106,7 +106,9 @@ cdef class HonestCMSE(RegressionCriterion):
         self.y0_sq_sum_right = 0.0
         self.yt_sum_right = 0.0
         self.y0_sum_right = 0.0
-    
+
+        self.offset = 0.0
+
     def __reduce__(self):
         return (type(self), (self.n_outputs, self.n_samples), self.__getstate__())
     
@@ -171,6 +173,19 @@ cdef class HonestCMSE(RegressionCriterion):
         self.y0_sq_sum_total = y0_sq_sum_total
         self.weighted_n_node_samples =weighted_n_node_samples
 
+        cdef DOUBLE_t y_min, y_max
+        if end - start == y.shape[0]:
+            # the root of the tree
+            y_min = self.y[samples[start], 0]
+            y_max = y_min
+            for p in range(start, end):
+                y_ik = self.y[samples[p], 0]
+                if y_ik < y_min:
+                    y_min = y_ik
+                if y_ik > y_max:
+                    y_max = y_ik
+            self.offset = (y_max - y_min) * (y_max - y_min)
+
         # Reset to pos=start
         self.reset()
         return 0
@@ -331,106 +346,64 @@ cdef class HonestCMSE(RegressionCriterion):
         self.pos = new_pos
         return 0
 
+    cdef double honest_mse(self, int nt, int n0, double yt_sum, double y0_sum,
+                           double yt_sq_sum, double y0_sq_sum) nogil:
+        """Two times the variance of the difference in means less its square."""
+        cdef double yt = 0.0
+        cdef double y0 = 0.0
+        cdef double r = 0.0
+        if nt > 0:
+            yt = yt_sum / nt
+            r += 2 * (yt_sq_sum / nt - yt * yt) / nt
+        if n0 > 0:
+            y0 = y0_sum / n0
+            r += 2 * (y0_sq_sum / n0 - y0 * y0) / n0
+        return r - (yt - y0) * (yt - y0)
+
     cdef double node_impurity(self) nogil:
-        cdef double impurity
-        #### FIXME
-        # Note: the reason we initiate impurity as alpha is to prevent node_impurity
-        # being negative, which whill then make the training of the tree stop immediately
-        cdef DOUBLE_t nt_total = self.nt_total + eps
-        cdef DOUBLE_t n0_total = self.n0_total + eps
-        impurity = alpha
-        impurity += 2 * (self.yt_sq_sum_total /nt_total - (self.yt_sum_total / nt_total )**2.0) / nt_total
-        impurity += 2 * (self.y0_sq_sum_total /n0_total - (self.y0_sum_total / n0_total )**2.0) / n0_total
-        impurity -= (self.yt_sum_total / nt_total - self.y0_sum_total /n0_total )**2.0
-        return impurity
+        # The training of the tree stops as soon as an impurity is not positive:
+        # the offset, common to all nodes, is the largest square of a difference.
+        return self.offset + self.honest_mse(
+            self.nt_total, self.n0_total, self.yt_sum_total, self.y0_sum_total,
+            self.yt_sq_sum_total, self.y0_sq_sum_total)
 
     cdef void children_impurity(self, double* impurity_left,
                                 double* impurity_right) nogil:
-        # cdef DOUBLE_t* sample_weight = self.sample_weight
-        # cdef SIZE_t* samples = self.samples
-        # cdef SIZE_t pos = self.pos
-        # cdef SIZE_t start = self.start
-        #
-        # cdef DOUBLE_t y_ik
-        # #
-        # #cdef double sq_sum_left = 0.0
-        # #
-        # cdef double yt_sq_sum_left = 0.0
-        # cdef double y0_sq_sum_left = 0.0
-        #
-        # #
-        # #cdef double sq_sum_right
-        # #
-        # cdef double yt_sq_sum_right
-        # cdef double y0_sq_sum_right
-        #
-        # cdef SIZE_t i
-        # cdef SIZE_t p
-        # cdef DOUBLE_t w = 1.0
-        #
-        # for p in range(start, pos):
-        #     i = samples[p]
-        #
-        #     if sample_weight != NULL:
-        #         w = sample_weight[i]
-        #
-        #     y_ik = self.y[i, 0]
-        #     if w>0:
-        #         yt_sq_sum_left += y_ik * y_ik
-        #     else:
-        #         y0_sq_sum_left += y_ik * y_ik
-        #
-        # #
-        # #sq_sum_right = self.sq_sum_total - sq_sum_left
-        # #
-        # yt_sq_sum_right = self.yt_sq_sum_total - yt_sq_sum_left
-        # y0_sq_sum_right = self.y0_sq_sum_total - y0_sq_sum_left
-
-        cdef DOUBLE_t nt_left = self.nt_left + eps
-        cdef DOUBLE_t n0_left = self.n0_left + eps
-        cdef DOUBLE_t nt_right = self.nt_right + eps
-        cdef DOUBLE_t n0_right = self.n0_right + eps
+        impurity_left[0] = self.offset + self.honest_mse(
+            self.nt_left, self.n0_left, self.yt_sum_left, self.y0_sum_left,
+            self.yt_sq_sum_left, self.y0_sq_sum_left)
+        impurity_right[0] = self.offset + self.honest_mse(
+            self.nt_right, self.n0_right, self.yt_sum_right, self.y0_sum_right,
+            self.yt_sq_sum_right, self.y0_sq_sum_right)
 
-        #
-        #impurity_left[0] = sq_sum_left / self.weighted_n_left
-        #
-        impurity_left[0] = alpha
-        impurity_left[0] += 2 * (self.yt_sq_sum_left / nt_left - (self.yt_sum_left / nt_left)**2.0) / nt_left
-        impurity_left[0] += 2 * (self.y0_sq_sum_left / n0_left - (self.y0_sum_left / n0_left)**2.0) / n0_left
-        
-        #
-        #impurity_right[0] = sq_sum_right / self.weighted_n_right
-        #
-        impurity_right[0] = alpha
-        impurity_right[0] += 2 * (self.yt_sq_sum_right / nt_right - (self.yt_sum_right / nt_right)**2.0) / nt_right
-        impurity_right[0] += 2 * (self.y0_sq_sum_right / n0_right - (self.y0_sum_right / n0_right)**2.0) / n0_right
-        
-        #impurity_left[0] /= self.n_outputs
-        #impurity_right[0] /= self.n_outputs
-        impurity_left[0] -= (self.yt_sum_left / nt_left - self.y0_sum_left / n0_left) ** 2.0
-        impurity_right[0] -= (self.yt_sum_right / nt_right - self.y0_sum_right / n0_right) ** 2.0
-    
     cdef void node_value(self, double* dest) nogil:
         """Compute the node value of samples[start:end] into dest."""
-        #### FIXME
-        dest[0] = self.yt_sum_total / (self.nt_total + eps) - self.y0_sum_total /  (self.n0_total + eps)
-        #dest[0] = 0.0
+        dest[0] = 0.0
+        if self.nt_total > 0:
+            dest[0] += self.yt_sum_total / self.nt_total
+        if self.n0_total > 0:
+            dest[0] -= self.y0_sum_total / self.n0_total
 
     cdef double proxy_impurity_improvement(self) nogil:
-        cdef double impurity_left
-        cdef double impurity_right
-        self.children_impurity(&impurity_left, &impurity_right)
-
-
-        return (- (self.nt_right + self.n0_right) * impurity_right
-                - (self.nt_left + self.n0_left) * impurity_left)
+        # no difference can be taken on a side that lacks one of the groups
+        if (self.nt_left == 0 or self.n0_left == 0 or
+                self.nt_right == 0 or self.n0_right == 0):
+            return -INFINITY
+
+        return (- (self.nt_right + self.n0_right) * self.honest_mse(
+                    self.nt_right, self.n0_right, self.yt_sum_right, self.y0_sum_right,
+                    self.yt_sq_sum_right, self.y0_sq_sum_right)
+                - (self.nt_left + self.n0_left) * self.honest_mse(
+                    self.nt_left, self.n0_left, self.yt_sum_left, self.y0_sum_left,
+                    self.yt_sq_sum_left, self.y0_sq_sum_left))
 
     cdef double impurity_improvement(self, double impurity_parent,
                                      double impurity_left,
                                      double impurity_right) nogil:
-        cdef DOUBLE_t n_total = self.nt_total + self.n0_total + eps
-        return (impurity_parent - ((self.nt_right + self.n0_right) / n_total * impurity_right)
-                                - ((self.nt_left + self.n0_left) / n_total * impurity_left))
+        cdef double n_node = self.nt_total + self.n0_total
+        return n_node / self.y.shape[0] * (
+            impurity_parent - ((self.nt_right + self.n0_right) / n_node * impurity_right)
+                            - ((self.nt_left + self.n0_left) / n_node * impurity_left))
 
 
 cdef class CMSE(HonestCMSE):
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d603017..23a4266 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -770,6 +770,10 @@ class CausalTree(BaseEstModel):
         if y.ndim == 1:
             y = y.reshape(-1, 1)
 
+        # differences of means do not depend on the origin of the outcome, but
+        # their precision does
+        y = y - y.mean(axis=0)
+
         self.n_outputs_ = y.shape[1]
 
         self.honest_sample = self._get_honest_samples_num(sub_samples=n_samples)
-- 
2.43.0


From 3c7a66798e8a926aaebc92701e2adb6fb0981a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 064/171] fix: CausalTree.estimate returned None for ATE and
 CATE, and fit did not return the tree

---
 ylearn/estimator_model/causal_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 23a4266..fe70b9c 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -396,7 +396,7 @@ class CausalTree(BaseEstModel):
         )
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
-        self._fit_with_array(y, x, w, v, treat, control)
+        return self._fit_with_array(y, x, w, v, treat, control)
 
     def estimate(self, data=None, quantity=None):
         """Estimate the causal effect of the treatment on the outcome in the data.
@@ -425,7 +425,7 @@ class CausalTree(BaseEstModel):
         logger.debug(f"Start estimating the causal effect with the type of {quantity}.")
 
         if quantity == "ATE" or quantity == "CATE":
-            np.mean(effect, axis=0)
+            return np.mean(effect, axis=0)
         else:
             return effect
 
-- 
2.43.0


From baf2547b17dc9beb5f9aee67e4f439ec7b19607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 065/171] fix: CausalTree.estimate left out the training rows
 of other treatment levels

---
 ylearn/estimator_model/causal_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index fe70b9c..99bf678 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -727,6 +727,7 @@ class CausalTree(BaseEstModel):
         # check random state
         random_state = check_random_state(self.random_state)
         wv = get_wv(w, v)
+        self._wv = wv
 
         # Determin treatment settings
         if self.categories == "auto" or self.categories is None:
@@ -765,7 +766,6 @@ class CausalTree(BaseEstModel):
 
         # Determine output settings
         n_samples, self.n_features_in_ = wv.shape  # dimension of the input
-        self._wv = wv
 
         if y.ndim == 1:
             y = y.reshape(-1, 1)
-- 
2.43.0


From cae96ca3a143b0a51034c870e357c35248979fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 066/171] fix: an integer honest_subsample_num failed in
 CausalTree

---
 ylearn/estimator_model/causal_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 99bf678..f81b028 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -503,11 +503,11 @@ class CausalTree(BaseEstModel):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
-            return self.honest_subsample_num / sub_samples
+            return self.honest_subsample_num
 
         if isinstance(self.honest_subsample_num, numbers.Real):
             if self.honest_subsample_num >= 1 or self.honest_subsample_num < 0:
-- 
2.43.0


From 26ebc10b2a0760b4e044b7f305d836a5b4507f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 067/171] fix: honest leaves without held-out rows of both
 groups kept the value of the rows that grew the tree

---
 ylearn/estimator_model/causal_tree.py | 33 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index f81b028..c2032a0 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -433,20 +433,27 @@ class CausalTree(BaseEstModel):
         return self.tree_.predict(v)
 
     def _assign_honest_values(self, tree, wv, y, x):
-        wv = wv.astype(np.float32)
-        leafs = tree.apply(wv)
-        leaf_collection, leaf_idx = np.unique(leafs, return_index=True)
-        for i, leaf_node in enumerate(leaf_collection):
-            ar = leafs == leaf_node
-            y_sub, x_sub = y[ar], x[ar]
-            y_sub_tr, y_sub_ctrl = y_sub[x_sub > 0], y_sub[x_sub < 0]
-            if y_sub_tr.size == 0 or y_sub_ctrl.size == 0:
-                pass
+        # rows in each node, whether leaf or not
+        nodes = tree.decision_path(wv.astype(np.float32)).T
+        n_tr, n_ctrl = nodes.dot(x > 0), nodes.dot(x < 0)
+        if n_tr[0] == 0 or n_ctrl[0] == 0:
+            return  # nothing was held out to compare
+
+        parent = np.zeros(tree.node_count, dtype=int)
+        for children in (tree.children_left, tree.children_right):
+            inner = np.nonzero(children >= 0)[0]
+            parent[children[inner]] = inner
+
+        value = tree.value
+        sum_tr, sum_ctrl = nodes.dot(y * (x > 0)[:, None]), nodes.dot(
+            y * (x < 0)[:, None]
+        )
+        for i in range(tree.node_count):  # parents come before their children
+            if n_tr[i] > 0 and n_ctrl[i] > 0:
+                ef = sum_tr[i] / n_tr[i] - sum_ctrl[i] / n_ctrl[i]
+                value[i] = ef.reshape(value.shape[1:])
             else:
-                ef = (y_sub_tr.mean(axis=0) - y_sub_ctrl.mean(axis=0)).reshape(
-                    tree.value.shape[1:]
-                )
-                tree.value[leafs[leaf_idx[i]]] = ef
+                value[i] = value[parent[i]]
 
     def _check_features(self, *, wv=None, data=None):
         """Validate the data for the model to estimate the causal effect.
-- 
2.43.0


From a36d48cb9b7092ee20c735ae32a90316004d1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 068/171] fix: labels other than python integers failed as
 treat or control of a causal tree

---
 ylearn/estimator_model/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index e7dd7a9..dda3bd5 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -96,14 +96,15 @@ def get_treat_control(treat_ctrl, trans, treat=False):
     n_treat = len(trans.categories_)
 
     if treat_ctrl is not None:
-        if not isinstance(treat_ctrl, int):
+        if isinstance(treat_ctrl, (list, tuple, np.ndarray)):
             assert len(treat_ctrl) == n_treat
         else:
             treat_ctrl = [
                 treat_ctrl,
             ]
 
-        treat_ctrl = np.array(list(treat_ctrl))
+        # object keeps the type of each label
+        treat_ctrl = np.array(list(treat_ctrl), dtype=object)
         treat_ctrl = trans.transform(treat_ctrl.reshape(1, -1))
     else:
         if treat:
-- 
2.43.0


From f31e2aa0fdf65c583167a89f220b9372cb5a2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 069/171] fix: the causal tree loses no precision to the origin
 of the outcome

---
 ylearn/estimator_model/causal_tree.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index c2032a0..6b692be 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -445,6 +445,7 @@ class CausalTree(BaseEstModel):
             parent[children[inner]] = inner
 
         value = tree.value
+        y = y - y.mean(axis=0)
         sum_tr, sum_ctrl = nodes.dot(y * (x > 0)[:, None]), nodes.dot(
             y * (x < 0)[:, None]
         )
@@ -777,9 +778,6 @@ class CausalTree(BaseEstModel):
         if y.ndim == 1:
             y = y.reshape(-1, 1)
 
-        # differences of means do not depend on the origin of the outcome, but
-        # their precision does
-        y = y - y.mean(axis=0)
 
         self.n_outputs_ = y.shape[1]
 
@@ -961,7 +959,9 @@ class CausalTree(BaseEstModel):
         logger.debug(f"Building the causal tree with builder {type(builder).__name__}")
 
         if self.honest_sample is None:
-            builder.build(self.tree_, wv, y, sample_weight)
+            # differences of means do not depend on the origin of the outcome, but
+            # their precision does
+            builder.build(self.tree_, wv, y - y.mean(axis=0), sample_weight)
         else:
             (
                 wv_train,
@@ -977,7 +977,9 @@ class CausalTree(BaseEstModel):
                 test_size=self.honest_sample,
                 random_state=random_state,
             )
-            builder.build(self.tree_, wv_train, y_train, sample_weight_train)
+            builder.build(
+                self.tree_, wv_train, y_train - y_train.mean(axis=0), sample_weight_train
+            )
             self._assign_honest_values(self.tree_, wv_test, y_test, sample_weight_test)
 
         self._is_fitted = True
-- 
2.43.0


From bfad2ce600802c5bf51660569b2ca1595a988c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 070/171] fix: forests ignored their random_state

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 578e7ab..64dce3e 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -262,6 +262,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             is_discrete_outcome=is_discrete_outcome,
             is_discrete_treatment=is_discrete_treatment,
             categories=categories,
+            random_state=random_state,
         )
 
         self.verbose = verbose
-- 
2.43.0


From 881552a6a4101df6a95c1af1a702a935a54d6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 071/171] fix: the outcome of the local regression of a forest
 was not centred

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 64dce3e..58cfd08 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -645,7 +645,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         inv_grad = inverse_grad(grad_)
 
         y = np.tile(y.reshape(1, -1), (n_test, 1))
-        y_dif = y - alpha * y
+        y_dif = y - (alpha * y).sum(axis=1, keepdims=True)
         theta_ = ((alpha * y_dif).reshape(n_test, n_train, 1) * x_dif).sum(1)
 
         return inv_grad, theta_
-- 
2.43.0


From 82ac30052dc4986bc3311f2941eb8aba2b872ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 072/171] fix: rows a tree never saw were recorded as members
 of its root leaf

---
 .../_generalized_forest/_base_forest.py          | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 58cfd08..6343db3 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -127,8 +127,9 @@ def _prediction(e, v, n_training_samples):
     # create alpha
     alpha = np.zeros(shape=(n, i))
     for leaf, row in zip(pred, alpha):
-        index = leaf_record[leaf]
-        if len(index) != 0:
+        # an honest leaf may hold no labelling samples
+        index = leaf_record.get(leaf)
+        if index is not None:
             row[np.array(index)] = 1 / len(index)
 
     return alpha
@@ -559,7 +560,6 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             )
             # v_pred = t._predict_with_array(None, v[s])
             v_pred = t.apply(None, v[s])
-            # TODO: idx may not be necessary
             idx = s
         else:
             t._fit_with_array(
@@ -573,17 +573,11 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             v_pred = t.apply(None, v[s][:honest_sample_num])
             idx = s[:honest_sample_num]
 
-        # TODO: note that if a predict value is 0 this line may cause some unexpected result, so it may be more approriate to create an nan array instead
-        leaf_record = np.zeros(v.shape[0])
-        leaf_record[idx] = v_pred
-
-        # #####: I modify this line
         collect_all = defaultdict(list)
-        for i, node_id in enumerate(leaf_record):
+        for i, node_id in zip(idx, v_pred):
             collect_all[node_id].append(i)
 
-        # t.leaf_record = leaf_record.reshape(1, -1)
-        t.leaf_record = collect_all
+        t.leaf_record = dict(collect_all)
 
         return t
 
-- 
2.43.0


From f727dbf03e34b4d29561a4904724142af669b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 073/171] fix: honest forest weights did not sum to one with
 empty leaves

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 6343db3..6c92c3a 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -598,8 +598,10 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             )
             for i, e in enumerate(self.estimators_)
         )
-        alpha = np.mean(alpha_collection, axis=0)
-        return alpha
+        alpha = np.sum(alpha_collection, axis=0)
+        # only the trees with labelling samples in the leaf take part in the weights
+        total = alpha.sum(axis=1, keepdims=True)
+        return np.divide(alpha, total, out=np.zeros_like(alpha), where=total > 0)
 
     def _compute_aug(self, y, x, alpha):
         r"""Formula:
-- 
2.43.0


From ea1e6d3bd18ce432e44bb502ed454213120ab7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 074/171] fix: forests failed on an integer
 honest_subsample_num

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 6c92c3a..aeddc06 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -503,9 +503,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample_num must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num
 
-- 
2.43.0


From 6c1634125b51cf6288c4f8f05939765cfd75c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 075/171] fix: fit of the forests returned None

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 +++-
 ylearn/estimator_model/_generalized_forest/_grf.py         | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index aeddc06..319f4e0 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -318,7 +318,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
 
-        self._fit_with_array(y, x, w, v, sample_weight=sample_weight, **kwargs)
+        return self._fit_with_array(
+            y, x, w, v, sample_weight=sample_weight, **kwargs
+        )
 
     def estimate(self, data=None, **kwargs):
         """Estimate the causal effect of the treatment on the outcome in data.
diff --git a/ylearn/estimator_model/_generalized_forest/_grf.py b/ylearn/estimator_model/_generalized_forest/_grf.py
index e8c72be..1f0662a 100644
--- a/ylearn/estimator_model/_generalized_forest/_grf.py
+++ b/ylearn/estimator_model/_generalized_forest/_grf.py
@@ -179,7 +179,7 @@ class GRForest(BaseCausalForest):
             An instance of GRForest.
         """
         adjustment = None
-        super().fit(
+        return super().fit(
             data,
             outcome,
             treatment,
-- 
2.43.0


From 6fed0305b57937f253d1307c6b97931b23a80b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 076/171] fix: apply of the forests failed on every input

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 6 +++++-
 ylearn/estimator_model/causal_tree.py                      | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 319f4e0..b5a33fc 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -359,11 +359,15 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return the index of the leaf v ends up in.
         """
         results = Parallel(**self._job_options())(
-            delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
+            delayed(self._apply_tree)(tree, v) for tree in self.estimators_
         )
 
         return np.array(results).T
 
+    @staticmethod
+    def _apply_tree(tree, v):
+        return tree.apply(None, v)
+
     @property
     def feature_importance(self):
         return self.feature_importances_()
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 6b692be..05fbdb7 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1109,6 +1109,10 @@ class CTCausalForest(BaseCausalForest):
 
         return t
 
+    @staticmethod
+    def _apply_tree(tree, v):
+        return tree.apply(wv=v)
+
     def _get_honest_samples_num(self, sub_samples):
         return self.base_estimator._get_honest_samples_num(sub_samples)
 
-- 
2.43.0


From 5f2b322c4a8a265e598ec5e466dea78d85248a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 077/171] fix: feature_importance failed for forests of causal
 trees and forests of stumps

---
 .../estimator_model/_generalized_forest/_base_forest.py   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index b5a33fc..c29b2b9 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -368,19 +368,23 @@ class BaseCausalForest(BaseEstModel, BaseForest):
     def _apply_tree(tree, v):
         return tree.apply(None, v)
 
+    @staticmethod
+    def _tree_importances(tree):
+        return tree.tree_.compute_feature_importances()
+
     @property
     def feature_importance(self):
         return self.feature_importances_()
 
     def feature_importances_(self):
         all_importances = Parallel(**self._job_options())(
-            delayed(getattr)(tree, "feature_importances_")
+            delayed(self._tree_importances)(tree)
             for tree in self.estimators_
             if tree.tree_.node_count > 1
         )
 
         if not all_importances:
-            return np.zeros(self.n_features_in_, dtype=np.float64)
+            return np.zeros(self.estimators_[0].n_features_in_, dtype=np.float64)
 
         all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
         return all_importances / np.sum(all_importances)
-- 
2.43.0


From bd57bbfa7881c222ef9e1aff947abb4f4a19b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 078/171] fix: forests of causal trees coded the treatment on
 each subsample and failed on string levels and on estimate without data

---
 ylearn/estimator_model/causal_tree.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 05fbdb7..f319d5b 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1082,6 +1082,22 @@ class CTCausalForest(BaseCausalForest):
             control=control,
         )
 
+    def _fit_with_array(
+        self, y, x, w, v, sample_weight=None, treat=None, control=None
+    ):
+        if x.ndim == 1:
+            x = x.reshape(-1, 1)
+
+        # the levels are coded once for all trees, a subsample may miss some of them
+        self.transformer = OrdinalEncoder(categories=self.categories).fit(x)
+        self.treat = get_treat_control(treat, self.transformer, treat=True)
+        self.control = get_treat_control(control, self.transformer, treat=False)
+        self._w = w
+
+        return super()._fit_with_array(
+            y, self.transformer.transform(x), w, v, sample_weight=sample_weight
+        )
+
     def _fit(
         self,
         t,
@@ -1099,13 +1115,12 @@ class CTCausalForest(BaseCausalForest):
         if verbose != 0:
             print(f"Fit the {i + 1} tree")
 
-        treat = kwargs.get("treat", None)
-        control = kwargs.get("control", None)
-
-        # TODO: Note that this step can be improved by updating the procedure of making treat and control
+        t.categories = [np.arange(len(c)) for c in self.transformer.categories_]
         w = w[s] if w is not None else None
         v = v[s] if v is not None else None
-        t._fit_with_array(y[s], x[s], w, v, treat=treat, control=control)
+        t._fit_with_array(
+            y[s], x[s], w, v, treat=self.treat[0], control=self.control[0]
+        )
 
         return t
 
-- 
2.43.0


From 25e5c963959191bd6707517d9f71da6a808910b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 079/171] fix: effects of a forest of causal trees depended on
 the order in which the workers ended

---
 ylearn/estimator_model/causal_tree.py | 34 ++++-----------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index f319d5b..22966b2 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1,5 +1,4 @@
 import numbers
-import threading
 
 from math import ceil
 from copy import deepcopy
@@ -988,21 +987,6 @@ class CausalTree(BaseEstModel):
 
 
 
-def _accumulate_prediction(predict, X, out, lock):
-    """
-    This is a utility function for joblib's Parallel.
-    It can't go locally in ForestClassifier or ForestRegressor, because joblib
-    complains that it cannot pickle it when placed there.
-    """
-    prediction = predict(X)
-    with lock:
-        if len(out) == 1:
-            out[0] += prediction
-        else:
-            for i in range(len(out)):
-                out[i] += prediction[i]
-
-
 class CTCausalForest(BaseCausalForest):
     def __init__(
         self,
@@ -1165,22 +1149,12 @@ class CTCausalForest(BaseCausalForest):
 
         n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
 
-        # avoid storing the output of every estimator by summing them here
-        if self.n_outputs_ > 1:
-            y_hat = np.zeros((v.shape[0], self.n_outputs_), dtype=np.float64)
-        else:
-            y_hat = np.zeros((v.shape[0], 1), dtype=np.float64)
-
-        # Parallel loop
-        lock = threading.Lock()
-        Parallel(n_jobs=n_jobs, verbose=self.verbose, require="sharedmem")(
-            delayed(_accumulate_prediction)(e.predict, v, [y_hat], lock)
-            for e in self.estimators_
+        # the trees are summed in their order, whichever worker ends first
+        y_hat = Parallel(n_jobs=n_jobs, verbose=self.verbose, require="sharedmem")(
+            delayed(e.predict)(v) for e in self.estimators_
         )
 
-        y_hat /= len(self.estimators_)
-
-        return y_hat
+        return np.sum(y_hat, axis=0) / len(self.estimators_)
 
 
 # class _CausalTreeOld:
-- 
2.43.0


From 14056f3763914601325257359e1b26a108fc53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 080/171] fix: CTCausalForest could not be imported from where
 its documentation says

---
 ylearn/estimator_model/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/__init__.py b/ylearn/estimator_model/__init__.py
index 39ee55f..42642f5 100644
--- a/ylearn/estimator_model/__init__.py
+++ b/ylearn/estimator_model/__init__.py
@@ -24,7 +24,7 @@ except ImportError as e:  # torch not ready
             raise ImportError(_msg_deep_iv)
 
 try:
-    from .causal_tree import CausalTree
+    from .causal_tree import CausalTree, CTCausalForest
 except ImportError as e:  # cython extension not ready
     _msg_causal_tree = f"{e}"
 
@@ -32,6 +32,9 @@ except ImportError as e:  # cython extension not ready
         def __init__(self, *args, **kwargs):
             raise ImportError(_msg_causal_tree)
 
+    class CTCausalForest(CausalTree):
+        pass
+
 try:
     from ._generalized_forest._grf import GRForest
 except ImportError as e:  # cython extension not ready
-- 
2.43.0


From 4e36cbf1824ecfa2a051e3cc41c6631f12f8269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 081/171] fix: splits of a generalised tree depended on the
 origin of the outcome and small nodes overran a buffer

---
 .../_generalized_forest/tree/_util_lib.cpp    | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
index d73096c..59e638f 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
+++ b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
@@ -87,7 +87,6 @@ int init_criterion( /* input */
         mem_size += n_node_samples * d_tr; // grad_coef
         mem_size += n_node_samples * d_y; // y_dif
         mem_size += n_node_samples * d_tr; // tr_dif
-        mem_size += n_node_samples * d_y; // y_node_cpy
 
         double *mem_work = new double[mem_size];
         double *y_node = mem_work;
@@ -97,8 +96,6 @@ int init_criterion( /* input */
         double *grad_coef = f_grad + d_tr * d_tr;
         double *y_dif = grad_coef + n_node_samples * d_tr;
         double *tr_dif = y_dif + n_node_samples * d_y;
-        double *y_node_cpy = tr_dif + n_node_samples * d_tr;
-
 
         int p, i, idx, k, k_tr, j_tr;
         double w = 1.0;
@@ -142,31 +139,27 @@ int init_criterion( /* input */
             mean_sum[k] += sum_total[k] / *weighted_n_node_samples;
         }
 
-        // 0: compute ls_coef
-        eigen_solve(n_node_samples, d_tr, d_y, tr_node, y_node, y_node_cpy);
-        for(k_tr=0; k_tr<d_tr; k_tr++){
+        // 0: compute tr_dif and y_dif, then ls_coef from them
+        for(idx=0; idx<n_node_samples; idx++){
+            for(k_tr=0; k_tr<d_tr; k_tr++){
+                tr_dif[idx + n_node_samples * k_tr] = (tr_node[idx + n_node_samples * k_tr] - mean_tr[k_tr]);
+            }
             for(k=0; k<d_y; k++){
-                ls_coef[k_tr + k * d_tr] = y_node_cpy[k_tr + k * n_node_samples];
+                y_dif[idx + n_node_samples * k] = (y_node[idx + n_node_samples * k] - mean_sum[k]);
             }
         }
+        eigen_solve(n_node_samples, d_tr, d_y, tr_dif, y_dif, ls_coef);
 
-        // 1: compute tr_dif and y_dif
+        // 1: compute the residual
         double grad_coef_ik=0.0;
         double tr_dif_ik;
 
         for(p=start; p<end; p++){
             idx = p - start;
 
-            for(k_tr=0; k_tr<d_tr; k_tr++){
-                // tr_dif_ik = tr_node[p + n * k_tr] - self.mean_tr[k_tr]
-                tr_dif[idx + n_node_samples * k_tr] = (tr_node[idx + n_node_samples * k_tr] - mean_tr[k_tr]);
-            }
             for(k=0; k<d_y; k++){
                 // TODO: Note that although here n_outputs is not 1, we actually assume it to be 1 to simplify the implementation, see
-                // y_dif_ik = y_node[p + n * k] - self.mean_sum[k]
-                // y_dif[p + n * k] = y_dif_ik
-                // grad_coef_ik += y_dif_ik
-                grad_coef_ik = y_node[idx + n_node_samples * k] - mean_sum[k];
+                grad_coef_ik = y_dif[idx + n_node_samples * k];
                 for(k_tr=0; k_tr<d_tr; k_tr++){
                     grad_coef_ik -= tr_dif[idx + n_node_samples * k_tr] * ls_coef[k_tr + k * d_tr];
                 }
-- 
2.43.0


From 31cefa7cc23db63aac74ea11c50ac8fa8383cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 082/171] fix: generalised forests failed to estimate with
 columns of object type

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index c29b2b9..c7e7655 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -396,9 +396,6 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if x.ndim == 1:
             x = x.reshape(-1, 1)
 
-        for k, value in {"y": y, "x": x, "v": v}.items():
-            setattr(self, "_" + k, value)
-
         # Determin treatment settings
         # if self.categories == "auto" or self.categories is None:
         #     categories = "auto"
@@ -423,6 +420,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if getattr(x, "dtype", None) != DOUBLE or not x.flags.contiguous:
             x = np.ascontiguousarray(x, dtype=DOUBLE)
 
+        for k, value in {"y": y, "x": x, "v": v}.items():
+            setattr(self, "_" + k, value)
+
         sub_sample_num_ = self._get_sub_samples_num(
             n_samples=x.shape[0], sub_samples=self.sub_sample_num
         )
-- 
2.43.0


From 205d7d0bfc50b0945c9c621e38b952b581d95ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 083/171] fix: CausalForest.estimate left out the
 covariate_transformer it was fitted with

---
 .../_generalized_forest/_base_forest.py            |  5 +++--
 ylearn/estimator_model/causal_forest.py            | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index c7e7655..71702b3 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -526,9 +526,10 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         v = self._v if data is None else convert2array(data, self.covariate)[0]
         return v
 
-    def _prepare4est(self, data=None, batch_size=100):
+    def _prepare4est(self, data=None, batch_size=100, v=None):
         assert self._is_fitted, "The model is not fitted yet."
-        v = self._check_features(data=data)
+        if v is None:
+            v = self._check_features(data=data)
         a = [
             self.__do_prepare4est(v[i : i + batch_size])
             for i in range(0, len(v), batch_size)
diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 25ec0aa..36f2213 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import DoubleML
-from .utils import get_tr_ctrl
+from .utils import convert2array, get_tr_ctrl
 from ._generalized_forest._grf import GRForest
 
 
@@ -217,7 +217,17 @@ class CausalForest(DoubleML):
         return x_prime
 
     def estimate(self, data=None, **kwargs):
-        return self.yx_model.estimate(data=data)
+        return self.yx_model._prepare4est(v=self._transform_covariate(data))
+
+    def _transform_covariate(self, data):
+        if data is None:
+            return None
+
+        v = convert2array(data, self.covariate)[0]
+        if self.covariate_transformer is not None:
+            v = self.covariate_transformer.transform(v)
+
+        return v
 
     def apply(self, v):
         """
-- 
2.43.0


From 295f1e45692897db042452221f79f13beced9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 084/171] fix: CausalForest.effect_nji failed on every input

---
 ylearn/estimator_model/causal_forest.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 36f2213..433a294 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -212,13 +212,22 @@ class CausalForest(DoubleML):
             else:
                 ctrl = 0
 
-            x_prime = np.delete(x_prime, ctrl, axis=1)
+            self._control_code = int(np.ravel(ctrl)[0])
+            x_prime = np.delete(x_prime, self._control_code, axis=1)
 
         return x_prime
 
     def estimate(self, data=None, **kwargs):
         return self.yx_model._prepare4est(v=self._transform_covariate(data))
 
+    def effect_nji(self, data=None, *args, **kwargs):
+        effect = self.estimate(data)
+        if self.is_discrete_treatment:
+            # the control has no effect over itself
+            effect = np.insert(effect, self._control_code, 0, axis=1)
+
+        return effect.reshape(effect.shape[0], 1, -1)
+
     def _transform_covariate(self, data):
         if data is None:
             return None
-- 
2.43.0


From 89685b433f8b928c7412af49beacf2655a5be7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 085/171] fix: a control label given to CausalForest as an
 array was taken for a column number

---
 ylearn/estimator_model/causal_forest.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 433a294..f4c9df1 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -198,17 +198,15 @@ class CausalForest(DoubleML):
         x_prime = x - x_hat
         if self.is_discrete_treatment:
             if hasattr(self, "control") and self.control is not None:
-                ctrl = self.control
-                if not isinstance(ctrl, np.ndarray):
-                    self._is_fitted = True  # TODO: this line is for temp useage
-                    ctrl = get_tr_ctrl(
-                        ctrl,
-                        self.comp_transormer,
-                        treat=False,
-                        one_hot=False,
-                        discrete_treat=True,
-                    )
-                    self._is_fitted = False
+                self._is_fitted = True  # TODO: this line is for temp useage
+                ctrl = get_tr_ctrl(
+                    self.control,
+                    self.comp_transormer,
+                    treat=False,
+                    one_hot=False,
+                    discrete_treat=True,
+                )
+                self._is_fitted = False
             else:
                 ctrl = 0
 
-- 
2.43.0


From b1a7e44edc786093698da9ecaee4242062235d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 086/171] fix: policy tree splits were lost or kept at random
 when effects are tiny or huge

---
 ylearn/policy/_tree/tree_criterion.pyx | 28 +++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/ylearn/policy/_tree/tree_criterion.pyx b/ylearn/policy/_tree/tree_criterion.pyx
index 5363d52..5d14402 100644
--- a/ylearn/policy/_tree/tree_criterion.pyx
+++ b/ylearn/policy/_tree/tree_criterion.pyx
@@ -6,6 +6,7 @@ from libc.string cimport memcpy
 from libc.string cimport memset
 from libc.math cimport log
 from libc.math cimport exp
+from libc.math cimport fabs
 
 import numpy as np
 cimport numpy as np
@@ -88,6 +89,27 @@ cdef class PRegCriteria1(RegressionCriterion):
 
 
 cdef class PRegCriteria(RegressionCriterion):
+    # keeps every impurity positive; on the scale of the effects, as a fixed
+    # huge constant would round away the differences between impurities
+    cdef double offset
+
+    cdef int init(self, const DOUBLE_t[:, ::1] y, DOUBLE_t* sample_weight,
+                  double weighted_n_samples, SIZE_t* samples, SIZE_t start,
+                  SIZE_t end) nogil except -1:
+        cdef SIZE_t i
+        cdef SIZE_t k
+        cdef double max_abs = 0.0
+
+        if self.offset == 0.0:
+            for i in range(<SIZE_t> y.shape[0]):
+                for k in range(self.n_outputs):
+                    if fabs(y[i, k]) > max_abs:
+                        max_abs = fabs(y[i, k])
+            self.offset = 2 * max_abs
+
+        return RegressionCriterion.init(self, y, sample_weight, weighted_n_samples,
+                                        samples, start, end)
+
     cdef double node_impurity(self) nogil:
         """Evaluate the impurity of the current node, i.e. the impurity of
         samples[start:end]. Specifically, we directly choose the max value of
@@ -102,7 +124,7 @@ cdef class PRegCriteria(RegressionCriterion):
             if self.sum_total[k] > max_sum:
                 max_sum = self.sum_total[k]
 
-        return (alpha - max_sum / self.weighted_n_node_samples)
+        return (self.offset - max_sum / self.weighted_n_node_samples)
 
     cdef double proxy_impurity_improvement(self) nogil:
         """Compute a proxy of the impurity reduction.
@@ -148,5 +170,5 @@ cdef class PRegCriteria(RegressionCriterion):
             if self.sum_right[k] > max_sum_right:
                 max_sum_right = self.sum_right[k]
 
-        impurity_left[0] = alpha - max_sum_left / self.weighted_n_left
-        impurity_right[0] = alpha - max_sum_right / self.weighted_n_right
\ No newline at end of file
+        impurity_left[0] = self.offset - max_sum_left / self.weighted_n_left
+        impurity_right[0] = self.offset - max_sum_right / self.weighted_n_right
\ No newline at end of file
-- 
2.43.0


From 0a2e23f0da0cf6a42d3e8f5621a600c325f3fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 087/171] fix: PolicyTree could not recommend anything when
 given the effects of a single level

---
 ylearn/policy/policy_model.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index cee3c0b..0595950 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -552,10 +552,7 @@ class PolicyTree:
 
         if self.criterion == "policy_reg":
             # TODO: consider more about continuous treatment
-            if self.n_outputs_ == 1:
-                return proba[:, 0]
-            else:
-                return proba[:, :, 0]
+            return proba.reshape(n_samples, self.n_outputs_)
         else:
             raise ValueError(f"The type of criterion {self.criterion} is not supported")
 
-- 
2.43.0


From 23efdbbc525c09a1dd13e0105e4b33fbfa0aaa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 088/171] fix: a refitted PolicyTree kept transforming
 covariates as in its earlier fit

---
 ylearn/policy/policy_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index 0595950..094d655 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -274,6 +274,7 @@ class PolicyTree:
         """
         ce, v = convert2array(data, effect, covariate)
         self.covariate = covariate
+        self.cov_transformer = None
 
         if effect_array is not None:
             ce = effect_array
@@ -595,7 +596,7 @@ class PolicyTree:
             assert isinstance(data, pandas.DataFrame)
 
             v = convert2array(data, self.covariate)[0]
-            if hasattr(self, "cov_transformer"):
+            if self.cov_transformer is not None:
                 v = self.cov_transformer.transform(v)
 
             assert v.shape[1] == self.tree_.n_features
-- 
2.43.0


From 519012106f4a6f05d197eb37795d2df44fa6f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 089/171] fix: PolicyInterpreter.fit without estimator and
 covariate failed before its own check

---
 ylearn/effect_interpreter/policy_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index ceec2cf..d1c4542 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -198,7 +198,8 @@ class PolicyInterpreter:
         """
         from ylearn.policy.policy_model import PolicyTree
 
-        covariate = est_model.covariate if covariate is None else covariate
+        if covariate is None and est_model is not None:
+            covariate = est_model.covariate
         # outcome = est_model.outcome
 
         assert covariate is not None, 'Need covariate to interpret the causal effect.'
-- 
2.43.0


From dd8dc920114e2ac4b8c130fb5304a7dba17a95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 090/171] fix: PolicyInterpreter.interpret named treatments by
 position although given their names

---
 ylearn/effect_interpreter/policy_interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index d1c4542..5945ae0 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -259,7 +259,9 @@ class PolicyInterpreter:
 
         policy_pred = self._tree_model.predict_opt_effect(data=data)
         policy_value = policy_pred.max(1)
-        policy_ind = policy_pred.argmax(1)
+        policy = policy_pred.argmax(1)
+        if self.treatment_names_ is not None:
+            policy = np.array(self.treatment_names_).take(policy)
         node_indicator = self._tree_model.decision_path(v=v)
         leaf_id = self._tree_model.apply(v=v)
         feature = self._tree_model.tree_.feature
@@ -288,7 +290,7 @@ class PolicyInterpreter:
                 result_dict[f'sample_{sample_id}'] += f'decision node {node_id}: (covariate [{sample_id}, {feature_id}] = {value})' \
                     f' {thre_sign} {thre} \n'
 
-            result_dict[f'sample_{sample_id}'] += f'The recommended policy is treatment {policy_ind[sample_id]} with value {policy_value[sample_id]}'
+            result_dict[f'sample_{sample_id}'] += f'The recommended policy is treatment {policy[sample_id]} with value {policy_value[sample_id]}'
             
         return result_dict
 
-- 
2.43.0


From 9277c48b5dfe14ec591219a5e2dd2821c0ec023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 091/171] fix: CEInterpreter.predict fed whole data frames to
 its tree instead of the covariates

---
 ylearn/effect_interpreter/ce_interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/effect_interpreter/ce_interpreter.py b/ylearn/effect_interpreter/ce_interpreter.py
index b7043f6..c27e993 100644
--- a/ylearn/effect_interpreter/ce_interpreter.py
+++ b/ylearn/effect_interpreter/ce_interpreter.py
@@ -275,6 +275,8 @@ class CEInterpreter:
         return self.predict(data)
 
     def predict(self, data):
+        if isinstance(data, pd.DataFrame):
+            data = convert2array(data, self.covariate)[0]
         data_t = self._transform_data(data)
         return self._tree_model.predict(data_t)
 
-- 
2.43.0


From 1921826471c50eeaae387e7482643401621f2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 092/171] fix: per-level effects of permuted learners had
 surplus columns for several outcomes and failed without data

---
 ylearn/estimator_model/_permuted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..33e0c80 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -46,7 +46,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, y_count))
+        effect = None  # no effect, sized after the others by the caller
     else:
         assert isinstance(learner_and_sign, tuple)
 
@@ -250,7 +250,8 @@ class PermutedLearner(BaseEstModel):
                 data, self.outcome, self.treatment, treat, control, target_outcome
             ) for treat in treats)
 
-        effects = np.concatenate(effects, axis=2)
+        null_effect = np.zeros_like(next(e for e in effects if e is not None))
+        effects = np.concatenate([null_effect if e is None else e for e in effects], axis=2)
         return effects
 
     @staticmethod
-- 
2.43.0


From d7c0df4db62512a8d6473f0b8b2a54d00eb804e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 093/171] fix: permuted learners failed on comparing a level
 with itself and on levels given as arrays

---
 ylearn/estimator_model/_permuted.py | 42 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index 33e0c80..d278794 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -122,6 +122,22 @@ class PermutedLearner(BaseEstModel):
                 else:
                     yield tuple(permuted_treats[t]), tuple(permuted_treats[c])
 
+    def _check_treat_control(self, treat, control):
+        treatment = self.treatment
+        if isinstance(treatment, str):
+            treatment = [treatment]
+
+        def check(level, default):
+            if level is None:
+                level = [self.treats_[t][default] for t in treatment]
+            elif isinstance(level, np.ndarray):
+                level = level.ravel().tolist()
+            if len(treatment) == 1:
+                return level[0] if isinstance(level, (tuple, list)) else level
+            return tuple(level)
+
+        return check(treat, -1), check(control, 0)
+
     def _get_learner(self, treat, control, silent=False):
         assert self._is_fitted
 
@@ -194,16 +210,12 @@ class PermutedLearner(BaseEstModel):
         return self
 
     def estimate(self, data=None, treat=None, control=None, target_outcome=None, **kwargs):
-        treatment = self.treatment
-        if isinstance(treatment, str):
-            treatment = [treatment]
-        if len(treatment) == 1:
-            if isinstance(control, (tuple, list)):
-                control = control[0]
-            if isinstance(treat, (tuple, list)):
-                treat = treat[0]
-
-        learner, sign = self._get_learner(treat, control)
+        treat, control = self._check_treat_control(treat, control)
+        if treat == control:
+            # the effect of a level over itself, sized after any other pair
+            learner, sign = next(iter(self.learners_.values())), 0
+        else:
+            learner, sign = self._get_learner(treat, control)
         if self.is_discrete_outcome:
             options = _default_estimate_options(learner)
             if target_outcome is not None:
@@ -212,7 +224,7 @@ class PermutedLearner(BaseEstModel):
         else:
             options = kwargs
         effect = learner.estimate(data, **options)
-        if sign < 0:
+        if sign < 1:
             effect = effect * sign
 
         self._last_treat_control = (treat, control)
@@ -223,15 +235,9 @@ class PermutedLearner(BaseEstModel):
         if isinstance(treatment, str):
             treatment = [treatment]
 
-        if control is None:
-            control = [self.treats_[t][0] for t in treatment]
-
-        if isinstance(control, list):
-            control = tuple(control)
+        _, control = self._check_treat_control(None, control)
 
         if len(treatment) == 1:
-            if isinstance(control, tuple):
-                control = control[0]
             treats = self.treats_[treatment[0]]
         else:
             treats = product(*[self.treats_[x] for x in treatment])
-- 
2.43.0


From f0e16ac63e40ca32eb08f46c2dae81113925c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 094/171] fix: without covariates DoublyRobust returned the
 effects of its training rows for any data

---
 ylearn/estimator_model/doubly_robust.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index fe9bdeb..301e317 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -452,6 +452,11 @@ class DoublyRobust(BaseEstModel):
 
         if v is None:
             y_pred_nji = self._final_result['effect']
+            if data is not None:
+                # nothing tells the given rows apart: each has the average effect
+                y_pred_nji = np.repeat(
+                    y_pred_nji.mean(axis=0, keepdims=True), len(data), axis=0
+                )
         else:
             n = v.shape[0]
             y_pred_nji = np.full((n, self._y_d, self._x_d), np.NaN)
-- 
2.43.0


From b76e09b266801ab1e9de6008f4b717198235f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 095/171] fix: DeepIV took discrete treatment levels for
 positions instead of the labels in the data

---
 ylearn/estimator_model/deepiv.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 31922d6..8a273b8 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -8,6 +8,7 @@ MDNWrapper and OutcomeNetWrapper, respectively.
 
 """
 
+import numpy as np
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
@@ -861,6 +862,17 @@ class DeepIV(BaseEstModel):
 
         return w
 
+    def _level_index(self, level, default):
+        if level is None:
+            return default
+
+        level = np.ravel(level)[0]
+        index = np.flatnonzero(self.x_transformer.categories_[0] == level)
+        if len(index) == 0:
+            raise ValueError(f'Unknown treatment level: {level}')
+
+        return int(index[0])
+
     def _prepare4est(
         self,
         data=None,
@@ -873,9 +885,6 @@ class DeepIV(BaseEstModel):
         if not hasattr(self, 'x_net') or not hasattr(self, 'y_net'):
             raise Exception('The estimator is not fitted yet.')
 
-        treat = 1 if treat is None else treat
-        control = 0 if control is None else control
-
         w = self._get_w(data)
         n = w.shape[0]
 
@@ -883,11 +892,14 @@ class DeepIV(BaseEstModel):
             # build the one_hot vectors for treatment vector xt and control
             # vector x0
             levels = torch.eye(self._x_d)
-            xt = levels[torch.full((n,), int(treat))]
-            x0 = levels[torch.full((n,), int(control))]
+            xt = levels[torch.full((n,), self._level_index(treat, 1))]
+            x0 = levels[torch.full((n,), self._level_index(control, 0))]
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
+            treat = 1 if treat is None else treat
+            control = 0 if control is None else control
+
             xt = torch.ones(n, self._x_d) * treat
             x0 = torch.ones(n, self._x_d) * control
             xt.requires_grad = True
-- 
2.43.0


From 4b999e76a3a22a0e4f5aa4d71e4739023f9cbf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 096/171] fix: growing a tree best-first ignored the sample
 weights

---
 ylearn/sklearn_ex/cloned/tree/_tree.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/cloned/tree/_tree.pyx b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
index 6e405ca..fd039dd 100644
--- a/ylearn/sklearn_ex/cloned/tree/_tree.pyx
+++ b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
@@ -361,7 +361,7 @@ cdef class BestFirstTreeBuilder(TreeBuilder):
 
         # init splitter
         cdef Splitter splitter = self.splitter
-        self._init_splitter(splitter,X,y)
+        self._init_splitter(splitter, X, y, sample_weight)
 
         # build tree
         self._build_tree(tree,splitter)
-- 
2.43.0


From 511bcb7f0d963208aca085549516e86514fca08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 097/171] fix: plotting a policy failed where two treatments
 tie in a node

---
 ylearn/effect_interpreter/_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/_export.py b/ylearn/effect_interpreter/_export.py
index 3244232..3c562b3 100644
--- a/ylearn/effect_interpreter/_export.py
+++ b/ylearn/effect_interpreter/_export.py
@@ -137,7 +137,7 @@ class _TreeExporter(_BaseTreeExporter):
             # Classification tree
             color = list(self.colors["rgb"][np.argmax(value)])
             sorted_values = sorted(value, reverse=True)
-            if len(sorted_values) == 1:
+            if len(sorted_values) == 1 or sorted_values[1] == 1:
                 alpha = 0
             else:
                 alpha = (sorted_values[0] - sorted_values[1]) / (1 - sorted_values[1])
-- 
2.43.0


From cb89bd9511117d3d0cafca97ea4203256ae3f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 098/171] fix: ApproxBound fitted the very models it was given

---
 ylearn/estimator_model/approximation_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index d91999c..1e61f60 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -1,4 +1,5 @@
 import numpy as np
+from sklearn.base import clone
 from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
 
 
@@ -79,9 +80,9 @@ class ApproxBound(BaseEstModel):
         categories : str, optional
             _description_, by default 'auto'
         """
-        self.y_model = y_model
+        self.y_model = clone(y_model)
         self.x_prob = x_prob
-        self.x_model = x_model
+        self.x_model = None if x_model is None else clone(x_model)
 
         super().__init__(
             random_state,
-- 
2.43.0


From 6f4030d8dac02742efcbed7118decb4243d56df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 099/171] fix: DoubleML and CausalForest fitted the very
 transformers they were given

---
 ylearn/estimator_model/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 797556d..be4bd74 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -309,8 +309,9 @@ class DoubleML(BaseEstModel):
         else:
             self.yx_model = clone(yx_model)
 
-        self.adjustment_transformer = adjustment_transformer
-        self.covariate_transformer = covariate_transformer
+        # safe=False: transformers are not bound to be of sklearn
+        self.adjustment_transformer = clone(adjustment_transformer, safe=False)
+        self.covariate_transformer = clone(covariate_transformer, safe=False)
 
         self.x_hat_dict = defaultdict(list)
         self.y_hat_dict = defaultdict(list)
-- 
2.43.0


From 8f439343d1102807a30598ee2e404ac20ffcde72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 100/171] fix: DoublyRobust without covariates handed out its
 internal array of effects

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 301e317..39c9cc9 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -451,7 +451,7 @@ class DoublyRobust(BaseEstModel):
         v = self._v if data is None else convert2array(data, self.covariate)[0]
 
         if v is None:
-            y_pred_nji = self._final_result['effect']
+            y_pred_nji = self._final_result['effect'].copy()
             if data is not None:
                 # nothing tells the given rows apart: each has the average effect
                 y_pred_nji = np.repeat(
-- 
2.43.0


From b7c2193ef5acb94e5ed764fd942454bd4e308601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 101/171] fix: levels given as a numeric array failed for
 treatments stored as objects

---
 ylearn/estimator_model/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index dda3bd5..433cc7c 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -78,12 +78,11 @@ def get_tr_ctrl(tr_crtl, trans, *, treat=False, one_hot=False, discrete_treat=Tr
         return 1 if treat else 0
 
     if discrete_treat:
-        if not isinstance(tr_crtl, np.ndarray):
-            if not isinstance(tr_crtl, (list, tuple)):
-                tr_crtl = [tr_crtl]
-            # object keeps the type of each label: one treatment may be labelled
-            # with strings and another one with numbers
-            tr_crtl = np.array(tr_crtl, dtype=object)
+        if not isinstance(tr_crtl, (list, tuple, np.ndarray)):
+            tr_crtl = [tr_crtl]
+        # object keeps the type of each label: one treatment may be labelled
+        # with strings and another one with numbers
+        tr_crtl = np.array(tr_crtl, dtype=object)
 
         tr_crtl = trans(tr_crtl.reshape(1, -1)).reshape(1, -1)
 
-- 
2.43.0


From 82fccf016ee71c3027bdaf65a9055fa035dbcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 102/171] fix: target_outcome was decoded instead of encoded in
 individual effects, policies and uplift of Why

---
 ylearn/api/_why.py | 63 +++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..5391f84 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -518,11 +518,15 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
-        if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
-        else:
-            return v
+    def _encode_target_outcome(self, v):
+        """
+        Code of the outcome value, default that of the last class; None if the outcome is not discrete.
+        """
+        if self.y_encoder_ is None:
+            return None
+        if v is None:
+            return len(self.y_encoder_.classes_) - 1
+        return self.y_encoder_.transform([v]).tolist()[0]
 
     def causal_graph(self):
         """
@@ -800,8 +804,7 @@ class Why:
 
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
-        if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._encode_target_outcome(target_outcome)
 
         dfs = []
         for ri in test_data_preprocessed.index:
@@ -1010,6 +1013,22 @@ class Why:
 
         return score
 
+    def _effect_nji(self, estimator, preprocessed_data, target_outcome=None, **options):
+        target_outcome = self._encode_target_outcome(target_outcome)
+        if target_outcome is not None \
+                and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
+            options['target_outcome'] = target_outcome
+        effect = estimator.effect_nji(preprocessed_data, **options)
+        assert isinstance(effect, np.ndarray)
+        assert effect.ndim == 3
+
+        if self.discrete_outcome and effect.shape[1] > 1:
+            assert effect.shape[1] == len(self.y_encoder_.classes_)
+            effect = effect[:, target_outcome:target_outcome + 1, :]
+
+        assert effect.shape[1] == 1
+        return effect
+
     def _effect_array(self, test_data, preprocessed_data, treatment, control=None, target_outcome=None):
         if treatment is None:
             treatment = self.treatment_[:2]
@@ -1028,24 +1047,7 @@ class Why:
                 if len(treatment) == 1:
                     control = control[0]
             options = drop_none(control=control, )
-            if target_outcome is not None \
-                    and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
-            effect = estimator.effect_nji(preprocessed_data, **options)
-            assert isinstance(effect, np.ndarray)
-            assert effect.ndim == 3
-
-            if self.discrete_outcome and effect.shape[1] > 1:
-                assert effect.shape[1] == len(self.y_encoder_.classes_)
-                if target_outcome is not None:
-                    nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
-                    if len(nz) == 0:
-                        assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
-                    effect = effect[:, nz[0]:nz[0] + 1, :]
-                else:
-                    effect = effect[:, -1:, :]
-
-            assert effect.ndim == 3 and effect.shape[1] == 1
+            effect = self._effect_nji(estimator, preprocessed_data, target_outcome, **options)
             effect_array = effect.squeeze(axis=1)
             classes = [self.x_encoders_[x].classes_.tolist() for x in treatment]
             effect_labels = list(map(lambda pair: '_'.join(map(str, pair)), product(*classes)))
@@ -1054,10 +1056,8 @@ class Why:
             for i, x in enumerate(treatment):
                 estimator = self.estimators_[x]
                 ci = control[i] if control is not None else None
-                options = drop_none(control=ci, target_outcome=target_outcome)
-                effect = estimator.effect_nji(preprocessed_data, **options)
-                assert isinstance(effect, np.ndarray)
-                assert effect.ndim == 3 and effect.shape[1] == 1
+                options = drop_none(control=ci)
+                effect = self._effect_nji(estimator, preprocessed_data, target_outcome, **options)
                 effects.append(effect.squeeze(axis=1))
             effect_array = np.hstack(effects)
             effect_labels = treatment
@@ -1297,7 +1297,7 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._encode_target_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
@@ -1319,7 +1319,8 @@ class Why:
         df_lift = pd.DataFrame({
             name: effect.ravel(),
             '_x_': utils.encode_treat_control(data_tc, treatment=treatment, treat=t_encoded, control=c_encoded),
-            '_y_': data_tc[self.outcome_]
+            '_y_': data_tc[self.outcome_] if target_outcome is None
+            else (data_tc[self.outcome_] == target_outcome).astype('int')
         }, index=data_tc.index)
         um = L.UpliftModel()
         um.fit(df_lift, treatment='_x_', outcome='_y_', random=random)
-- 
2.43.0


From 1c842a31fb26744ab0d175230a81571347f76da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 103/171] fix: Why.score ignored target_outcome for auuc and
 qini

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 5391f84..361b4a6 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -952,7 +952,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control,
+                                         target_outcome=target_outcome, scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From aedeb2cff47d6167cbf402ffd81fb9cb958b6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 104/171] fix: Why.score failed if there are instruments

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 361b4a6..e335c44 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -994,7 +994,7 @@ class Why:
         test_data = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(self.treatment_, treat, 'treat')
         control = self._safe_treat_control(self.treatment_, control, 'control')
-        fit_options = drop_none(adjustment=self.adjustment_, covariate=self.covariate_, instrument=self.instrument_)
+        fit_options = drop_none(adjustment=self.adjustment_, covariate=self.covariate_)
 
         sa = []
         for i, (x, scorer) in enumerate(scorers.items()):
-- 
2.43.0


From 877bba20863a05d7fd51dc900d6728da30ab1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 105/171] fix: individual effects of Why were of the first of
 the rows sharing an index value

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index e335c44..b914457 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -807,8 +807,8 @@ class Why:
         target_outcome = self._encode_target_outcome(target_outcome)
 
         dfs = []
-        for ri in test_data_preprocessed.index:
-            row_df = test_data_preprocessed.loc[ri:ri]
+        for i, ri in enumerate(test_data_preprocessed.index):
+            row_df = test_data_preprocessed.iloc[i:i + 1]
             for xi, x in enumerate(self.treatment_):
                 treat_i = row_df[x].tolist()[0]
                 control_i = control[xi]
-- 
2.43.0


From 5472fcbcd389169d937fbdfdf8da2a863fd636a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 106/171] fix: Why.whatif failed with fn_cost and misplaced
 effects of rows sharing an index value

---
 ylearn/api/_why.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index b914457..3a4e827 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -884,26 +884,20 @@ class Why:
         old_value = data[treatment]
         xe = self.x_encoders_[treatment]
 
-        df = pd.DataFrame(dict(c=old_value, t=new_value), index=old_value.index)
-        df['tc'] = df[['t', 'c']].apply(tuple, axis=1)
-        tc_pairs = df['tc'].unique().tolist()
-        effect = []
-        for t, c in tc_pairs:
-            tc_rows = df[df['tc'] == (t, c)]
+        # rows are aligned by position, the index may have duplicates
+        df = pd.DataFrame(dict(c=old_value.values, t=np.asarray(new_value)))
+        effect = np.zeros((len(df),))
+        for (t, c), rows in df.groupby(['t', 'c'], sort=False, observed=True).indices.items():
             if t == c:
-                eff = np.zeros((len(tc_rows),))
+                eff = np.zeros((len(rows),))
             else:
-                data_rows = data.loc[tc_rows.index]
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
-                eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
+                eff = estimator.estimate(data.iloc[rows], treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data, eff, self.effect_name)
-            effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
-        effect = pd.concat(effect, axis=0)
-        assert len(effect) == len(df)
-        df['e'] = effect['e']  # align indices
+                eff = utils.cost_effect(self.fn_cost, test_data.iloc[rows], eff, self.effect_name)
+            effect[rows] = eff.ravel()
 
-        y_new = y_old + df['e']
+        y_new = y_old + effect
         return y_new
 
     def _whatif_continuous(self, test_data, new_value, treatment, estimator):
-- 
2.43.0


From 4b5e9d6b855edab7f9f8ac652039756755aaeb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 107/171] fix: Why.causal_effect took the name of a continuous
 treatment for a list of letters

---
 ylearn/api/_why.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 3a4e827..ac6f538 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -718,8 +718,7 @@ class Why:
         assert not combine_treatment, \
             '"combine_treatment" is not supported for continuous treatment.'
 
-        if treatment is None:
-            treatment = self.treatment_
+        treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
 
         test_data_preprocessed = self._preprocess(test_data)
         treat = self._safe_treat_control(treatment, treat, 'treat')
-- 
2.43.0


From b88e45bf121024c42a010eb66e1f5ca8b097796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 108/171] fix: Why mixed the effects of a continuous treatment
 on all classes of a discrete outcome

---
 ylearn/api/_why.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index ac6f538..4adaeb3 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -528,6 +528,16 @@ class Why:
             return len(self.y_encoder_.classes_) - 1
         return self.y_encoder_.transform([v]).tolist()[0]
 
+    def _target_outcome_options(self, estimator, target_outcome):
+        """
+        Options to have the effect on target_outcome from the estimator, if it distinguishes the classes.
+        """
+        code = self._encode_target_outcome(target_outcome)
+        if code is not None and 'target_outcome' in inspect.signature(estimator.estimate).parameters.keys():
+            return dict(target_outcome=code)
+        else:
+            return {}
+
     def causal_graph(self):
         """
         Get identified causal graph
@@ -737,7 +747,8 @@ class Why:
                 control_i = np.zeros_like(treat_i)
             elif treat_i is None and control_i is not None:
                 treat_i = np.ones_like(control_i)
-            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i, **kwargs)
+            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i,
+                                  **self._target_outcome_options(est, target_outcome), **kwargs)
             if self.fn_cost is not None:
                 effect = utils.cost_effect(self.fn_cost, test_data, effect, self.effect_name)
             if quantity == 'ATE':
@@ -838,7 +849,8 @@ class Why:
             est = self.estimators_[x]
             treat_i = test_data_preprocessed[x]
             control_i = control[i] if control is not None else None
-            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i)
+            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i,
+                                  **self._target_outcome_options(est, target_outcome))
             s = pd.Series(effect.ravel(), name=x)
             dfs.append(s)
         return pd.concat(dfs, axis=1)
-- 
2.43.0


From 818b42f2c31af3669d77836d3b306f502fe0ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 109/171] fix: Why ignored documented options to estimate and
 failed for estimators without target_outcome

---
 ylearn/api/_why.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 4adaeb3..6b41c8a 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -814,7 +814,6 @@ class Why:
 
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
-        target_outcome = self._encode_target_outcome(target_outcome)
 
         dfs = []
         for i, ri in enumerate(test_data_preprocessed.index):
@@ -830,10 +829,8 @@ class Why:
                     row_df[x] = xe.transform(row_df[x])
                     t, c = xe.transform([treat_i, control_i]).tolist()
                     est = self.estimators_[x]
-                    if self.discrete_outcome:
-                        effect = est.estimate(data=row_df, treat=t, control=c, target_outcome=target_outcome)
-                    else:
-                        effect = est.estimate(data=row_df, treat=t, control=c)
+                    effect = est.estimate(data=row_df, treat=t, control=c,
+                                          **self._target_outcome_options(est, target_outcome))
                     effect = effect.ravel()[0]
                 s = pd.Series(dict(effect=effect),
                               name=(ri, x, f'{treat_i} vs {control_i}'))
@@ -1154,7 +1151,7 @@ class Why:
                 f'[{reason}] Not found outcome {self.outcome_} in test_data.'
 
     def _map_effect(self, handler, test_data, treatment=None, treat=None, control=None,
-                    target_outcome=None, combined=False):
+                    target_outcome=None, combined=False, **kwargs):
         assert self.discrete_treatment, 'Only discrete treatment is supported'
 
         test_data_preprocessed = self._preprocess(test_data, encode_outcome=True, encode_treatment=True)
@@ -1170,17 +1167,11 @@ class Why:
         else:
             itr = self._permute_treat_control_sequential(treatment, treat, control, encode=True)
 
-        if target_outcome is not None:
-            # target_outcome = self.y_encoder_.inverse_transform([target_outcome]).tolist()[0]
-            target_outcome = self.y_encoder_.transform([target_outcome]).tolist()[0]
-
         result = []
         for x, t, c in itr:
             est = self._get_estimator(x)
-            if self.discrete_outcome:
-                effect = est.estimate(data=test_data_preprocessed, treat=t, control=c, target_outcome=target_outcome)
-            else:
-                effect = est.estimate(data=test_data_preprocessed, treat=t, control=c)
+            effect = est.estimate(data=test_data_preprocessed, treat=t, control=c,
+                                  **self._target_outcome_options(est, target_outcome), **kwargs)
             if self.fn_cost is not None and test_data is not None:
                 effect = utils.cost_effect(self.fn_cost, test_data, effect, self.effect_name)
             result.append(handler(effect.ravel(), x, t, c, test_data_preprocessed))
@@ -1303,7 +1294,6 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._encode_target_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
@@ -1318,10 +1308,9 @@ class Why:
         t_encoded, c_encoded = utils.transform_treat_control(encoders, treat=treat, control=control)
         data_tc = utils.select_by_treat_control(test_data_preprocessed, treatment, t_encoded, c_encoded)
 
-        if self.discrete_outcome:
-            effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded, target_outcome=target_outcome)
-        else:
-            effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded)
+        effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded,
+                                    **self._target_outcome_options(estimator, target_outcome))
+        target_outcome = self._encode_target_outcome(target_outcome)
         df_lift = pd.DataFrame({
             name: effect.ravel(),
             '_x_': utils.encode_treat_control(data_tc, treatment=treatment, treat=t_encoded, control=c_encoded),
-- 
2.43.0


From 86d130dd435d5b84359641cce0ae5770edbd86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 110/171] fix: a new Why was taken for fitted

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 6b41c8a..ca8626b 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -168,7 +168,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
-- 
2.43.0


From 91450c32d05f3c9d22708a6644b96afa817288c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 111/171] fix: Why.identify removed treatments from the
 caller's own lists

---
 ylearn/api/_why.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index ca8626b..68d4a69 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -399,9 +399,9 @@ class Why:
         covariate = utils.to_list(covariate, name='covariate')
         instrument = utils.to_list(instrument, name='instrument')
 
-        utils.safe_remove(adjustment, treatment)
-        utils.safe_remove(covariate, treatment)
-        utils.safe_remove(instrument, treatment)
+        adjustment = utils.safe_remove(adjustment, treatment, copy=True)
+        covariate = utils.safe_remove(covariate, treatment, copy=True)
+        instrument = utils.safe_remove(instrument, treatment, copy=True)
 
         if all(map(utils.is_empty, (adjustment, covariate, instrument))):
             if identifier is None:
-- 
2.43.0


From 0b75e9351adba2b0c6a0fcbc8ada3212cd3a44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 112/171] fix: Why identified columns as treatment that the
 caller fixed in another role

---
 ylearn/api/_why.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 68d4a69..0d7c171 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -378,7 +378,12 @@ class Why:
             identifier = self._create_identifier()
             if treatment_count_limit is None:
                 treatment_count_limit = self._get_default_treatment_count_limit(data, outcome)
-            treatment = identifier.identify_treatment(data, outcome, self.discrete_treatment, treatment_count_limit)
+            options = {}
+            excludes = utils.join_list(adjustment, covariate, instrument)
+            if not utils.is_empty(excludes):
+                options['excludes'] = excludes
+            treatment = identifier.identify_treatment(data, outcome, self.discrete_treatment, treatment_count_limit,
+                                                      **options)
             if logger.is_info_enabled():
                 tag = 'classification' if utils.is_discrete(data[treatment[0]]) else 'regression'
                 logger.info(f'identified treatment[{tag}]: {treatment}')
-- 
2.43.0


From 6f197f03b09d7bd9f70729b2aa390ac83aec7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 113/171] fix: a refitted Why kept the kinds of outcome and
 treatment inferred from its earlier data

---
 ylearn/api/_why.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 0d7c171..401a8dd 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -168,6 +168,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
+        self._inferred = set()  # settings inferred from data
         self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
@@ -242,8 +243,10 @@ class Why:
             data = data.copy()
 
         y = data[outcome]
+        self._reset_inferred('discrete_outcome')
         if self.discrete_outcome is None:
             self.discrete_outcome = utils.is_discrete(y)
+            self._inferred.add('discrete_outcome')
             logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome)}')
 
         # if not _is_number(y.dtype):
@@ -318,6 +321,11 @@ class Why:
 
         return self
 
+    def _reset_inferred(self, name):
+        if name in self._inferred:
+            self._inferred.remove(name)
+            setattr(self, name, None)
+
     def _get_estimator(self, treatment):
         treatment = utils.to_list(treatment, 'treatment')
         if len(treatment) == 1:
@@ -372,6 +380,7 @@ class Why:
         """
 
         identifier = None
+        self._reset_inferred('discrete_treatment')
 
         treatment = utils.to_list(treatment, name='treatment')
         if utils.is_empty(treatment):
@@ -397,6 +406,7 @@ class Why:
 
         if self.discrete_treatment is None:
             self.discrete_treatment = utils.is_discrete(data[treatment[0]])
+            self._inferred.add('discrete_treatment')
             if logger.is_info_enabled():
                 logger.info(f'infer discrete_treatment={self.discrete_treatment}')
 
-- 
2.43.0


From 9fcea821ea20f11b600af3179e068a77ec670f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 114/171] fix: Why exchanged the values of adjustments,
 covariates and instruments of different types

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 401a8dd..57f20f1 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -283,7 +283,7 @@ class Why:
         assert len(columns) > 0
         data_t = preprocessor.fit_transform(data[columns], y)
         assert isinstance(data_t, pd.DataFrame) and set(data_t.columns.tolist()) == set(columns)
-        data[columns] = data_t
+        data[columns] = data_t[columns]  # the preprocessor groups its output by type
 
         # fit estimator
         estimator_keys = treatment.copy()
@@ -513,7 +513,7 @@ class Why:
             if self.preprocessor_ is not None:
                 var_columns = utils.join_list(self.adjustment_, self.covariate_, self.instrument_)
                 assert len(var_columns) > 0
-                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])
+                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])[var_columns]
 
             if encode_outcome and self.y_encoder_ is not None and self.outcome_ in columns:
                 test_data[self.outcome_] = self.y_encoder_.transform(test_data[self.outcome_])
-- 
2.43.0


From 98b67be1ec008d252ef830acdb3082a93c79b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 115/171] fix: effects of combined treatments named their
 levels after a common type

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 57f20f1..70c662d 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -704,7 +704,7 @@ class Why:
                 tc = []
                 for xi, ti, ci in zip(x, t, c):
                     tc.append(self.x_encoders_[xi].inverse_transform([ti, ci]).tolist())
-                return np.array(tc).T.tolist()
+                return [list(i) for i in zip(*tc)]
             else:
                 return self.x_encoders_[x].inverse_transform([t, c]).tolist()
 
-- 
2.43.0


From 5ea473e0a2fd6feb36efab8bfcc3238c8bbb4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 116/171] fix: importances of features failed for integer
 classes that do not start from zero

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a1a9c00..32bac04 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -158,7 +158,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression' and y.dtype != 'int':
+        if self.task != 'regression':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
-- 
2.43.0


From 67c954314a674f2df8192fbbb18cffc5f8a2b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 117/171] fix: two treatments were identified where the limit
 is one

---
 ylearn/api/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/utils.py b/ylearn/api/utils.py
index 58477b1..df9712e 100644
--- a/ylearn/api/utils.py
+++ b/ylearn/api/utils.py
@@ -67,11 +67,11 @@ def align_task_to_first(data, columns, count_limit):
     selected = columns[:1]
     discrete = is_discrete(data[selected[0]])
     for x in columns[1:]:
+        if len(selected) >= count_limit:
+            break
         x_discrete = is_discrete(data[x])
         if x_discrete is discrete:
             selected.append(x)
-            if len(selected) >= count_limit:
-                break
 
     return selected
 
-- 
2.43.0


From 5d94a1da21a88415cd0748fde8dcfb8f865bdfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 118/171] fix: T- and X-learner mixed the classes of the
 outcome where an arm lacks one

---
 ylearn/estimator_model/meta_learner.py | 53 +++++++++++++-------------
 ylearn/estimator_model/utils.py        | 12 ++++++
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index f1e988c..d20203d 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -13,6 +13,7 @@ from .utils import (
     cartesian,
     get_tr_ctrl,
     check_classes,
+    class_proba,
 )
 
 
@@ -725,6 +726,7 @@ class TLearner(BaseEstModel):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._y_d = y.shape[1]
+        self._outcome_classes = np.unique(y) if self.is_discrete_outcome else None
 
         if self.categories == "auto" or self.categories is None:
             categories = "auto"
@@ -788,10 +790,7 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            if self.combined_treat:
-                classes_ = self.xt_model.classes_
-            else:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
+            classes_ = self._outcome_classes
         else:
             classes_ = None
 
@@ -994,8 +993,12 @@ class TLearner(BaseEstModel):
         return self
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
-        yt = self.xt_model.__getattribute__(self.pred_func)(wv)
-        y0 = self.x0_model.__getattribute__(self.pred_func)(wv)
+        if self.proba_output:
+            yt = class_proba(self.xt_model, wv, self.outcome_classes_)
+            y0 = class_proba(self.x0_model, wv, self.outcome_classes_)
+        else:
+            yt = self.xt_model.predict(wv)
+            y0 = self.x0_model.predict(wv)
         if target_outcome is not None:
             yt, y0 = yt[:, target_outcome], y0[:, target_outcome]
         return yt - y0
@@ -1004,11 +1007,12 @@ class TLearner(BaseEstModel):
         n_treatments = len(self._fitted_dict_separa["treatment"])
         n = wv.shape[0]
         if self.proba_output:
-            f_nj0 = self._fitted_dict_separa["models"][0].predict_proba(wv)
+            classes = self.outcome_classes_
+            f_nj0 = class_proba(self._fitted_dict_separa["models"][0], wv, classes)
             y_d = f_nj0.shape[1]
             f_nji = np.full((n, y_d, n_treatments - 1), np.NaN)
             for i, model in enumerate(self._fitted_dict_separa["models"][1:]):
-                fnji = (model.predict_proba(wv) - f_nj0).reshape(n, y_d)
+                fnji = (class_proba(model, wv, classes) - f_nj0).reshape(n, y_d)
                 f_nji[:, :, i] = fnji
             if target_outcome is not None:
                 f_nji = f_nji[:, target_outcome, :]
@@ -1230,6 +1234,7 @@ class XLearner(BaseEstModel):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._y_d = y.shape[1]
+        self._outcome_classes = np.unique(y) if self.is_discrete_outcome else None
 
         if self.categories == "auto" or self.categories is None:
             categories = "auto"
@@ -1256,14 +1261,7 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            if self.combined_treat:
-                classes_ = (
-                    self.ft_model.classes_
-                )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            else:
-                classes_ = self._f0_model_separa.classes_
-            # else:
-            #     classes_ = None
+            classes_ = self._outcome_classes
         else:
             classes_ = None
 
@@ -1392,16 +1390,18 @@ class XLearner(BaseEstModel):
 
         # Step 2
         if self.proba_output:
-            self._outcome_oh = ArrayOneHotEncoder(categories=[self.ft_model.classes_])
+            classes = self._outcome_classes
+            self._outcome_oh = ArrayOneHotEncoder(categories=[classes])
             y_treat = self._outcome_oh.fit_transform(y_treat.reshape(-1, 1))
             y_control = self._outcome_oh.transform(y_control.reshape(-1, 1))
+            y_treat_0 = class_proba(self.f0_model, wv_treat, classes)
+            y_control_t = class_proba(self.ft_model, wv_control, classes)
+        else:
+            y_treat_0 = self.f0_model.predict(wv_treat)
+            y_control_t = self.ft_model.predict(wv_control)
 
-        h_treat_target = y_treat - self.f0_model.__getattribute__(self.pred_func)(
-            wv_treat
-        )
-        h_control_target = (
-            self.ft_model.__getattribute__(self.pred_func)(wv_control) - y_control
-        )
+        h_treat_target = y_treat - y_treat_0
+        h_control_target = y_control_t - y_control
         self.kt_model.fit(wv_treat, h_treat_target)
         self.k0_model.fit(wv_control, h_control_target)
 
@@ -1500,7 +1500,8 @@ class XLearner(BaseEstModel):
         f0_model.fit(_wv_control, _y_control)
 
         if self.proba_output:
-            self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
+            classes = self._outcome_classes
+            self._outcome_oh = ArrayOneHotEncoder(categories=[classes])
             _y_control = self._outcome_oh.fit_transform(_y_control.reshape(-1, 1))
             for treat in treat_arrays[1:]:
                 ft_model = clone(self.ft_model)
@@ -1513,8 +1514,8 @@ class XLearner(BaseEstModel):
                 # Step 2
                 _y = self._outcome_oh.transform(_y.reshape(-1, 1))
 
-                h_treat_target = _y - f0_model.predict_proba(_wv)
-                h_control_target = ft_model.predict_proba(_wv_control) - _y_control
+                h_treat_target = _y - class_proba(f0_model, _wv, classes)
+                h_control_target = class_proba(ft_model, _wv_control, classes) - _y_control
                 kt_model = clone(self.kt_model)
                 k0_model = clone(self.k0_model)
                 kt_model.fit(_wv, h_treat_target)
diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index 433cc7c..e7e407d 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -42,6 +42,18 @@ def inverse_grad(grad, eps=1e-5):
     return inv(grad)
 
 
+def class_proba(model, x, classes):
+    """Probabilities the model gives to the classes in order, zero for the
+    classes it has not seen in its training.
+    """
+    proba = model.predict_proba(x)
+    if len(model.classes_) == len(classes):
+        return proba
+    result = np.zeros((proba.shape[0], len(classes)))
+    result[:, np.searchsorted(classes, model.classes_)] = proba
+    return result
+
+
 def check_classes(target, classes_):
     if target is None:
         return None
-- 
2.43.0


From ef291c59a732567a0ccdf3a82070d26106ed1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 119/171] fix: trim_cycle failed for negative weights and self
 loops

---
 ylearn/causal_discovery/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index c1bef28..7285f35 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -17,13 +17,14 @@ class BaseDiscovery:
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
 
         g = nx.from_numpy_array(matrix, create_using=nx.DiGraph)  # .reverse()
+        g.remove_edges_from(list(nx.selfloop_edges(g)))
 
         def trim_with_weight():
-            edge_weights = nx.get_edge_attributes(g, 'weight')
+            edge_weights = {e: abs(w) for e, w in nx.get_edge_attributes(g, 'weight').items()}
             edges = sorted(edge_weights.keys(), key=lambda e: edge_weights[e], reverse=True)
             for X, Y in edges:
                 if nx.has_path(g, Y, X):
-                    paths = list(nx.all_shortest_paths(g, Y, X, weight='weight'))
+                    paths = list(nx.all_shortest_paths(g, Y, X, weight=lambda u, v, _: edge_weights[u, v]))
                     for p in paths:
                         es = sorted(zip(p[:-1], p[1:]), key=lambda e: edge_weights[e])
                         u, v = es[0]
-- 
2.43.0


From c1465ba5f034138c22bc6648e3dca9ca9dfb803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 120/171] fix: matrix2array reported the entries below the
 diagonal of an array as those above it

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index 7285f35..fdda562 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -90,7 +90,7 @@ class BaseDiscovery:
                     vt = matrix.iloc[col, row]
                 else:
                     v = matrix[row, col]
-                    vt = matrix[row, col]
+                    vt = matrix[col, row]
                 if abs(v) >= abs(vt):
                     r.append([row, col, v])
                 else:
-- 
2.43.0


From 1525c6932373d0e98b60355ad13287eeb750e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 121/171] fix: matrix2dict missed causes within the given depth

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index fdda562..1ee873f 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -61,7 +61,7 @@ class BaseDiscovery:
 
         d = OrderedDict()
         for i, name in enumerate(names):
-            t = set(c[1] for c in nx.dfs_edges(g, i, depth_limit=depth))
+            t = set(c[1] for c in nx.bfs_edges(g, i, depth_limit=depth))
             d[name] = [names[j] for j in range(n) if j in t]
 
         return d
-- 
2.43.0


From 9d044a4b9995b45bad3ef3c6e8fc250c13e02c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 122/171] fix: PgmProxy returned the columns in another order
 than the data

---
 ylearn/causal_discovery/_proxy_pgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_proxy_pgm.py b/ylearn/causal_discovery/_proxy_pgm.py
index 44d1cc1..d25b649 100644
--- a/ylearn/causal_discovery/_proxy_pgm.py
+++ b/ylearn/causal_discovery/_proxy_pgm.py
@@ -68,7 +68,7 @@ class PgmProxy(BaseDiscovery):
                                       columns=nodes, index=nodes)
         matrix_full = pd.DataFrame(np.zeros((df.shape[1], df.shape[1])),
                                    columns=columns, index=columns)
-        matrix_full = (matrix_full + matrix_learned).fillna(0.0)
+        matrix_full = (matrix_full + matrix_learned).fillna(0.0).loc[columns, columns]
 
         if isinstance(data, pd.DataFrame):
             matrix = matrix_full
-- 
2.43.0


From 67199d557aa34e479074d2e70d3d1170ea69bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 123/171] fix: GCastleProxy ignored threshold, or failed to
 return a dict with it

---
 ylearn/causal_discovery/_proxy_gcastle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_proxy_gcastle.py b/ylearn/causal_discovery/_proxy_gcastle.py
index b4ee6a1..eca24ff 100644
--- a/ylearn/causal_discovery/_proxy_gcastle.py
+++ b/ylearn/causal_discovery/_proxy_gcastle.py
@@ -9,7 +9,7 @@ import sys
 import numpy as np
 import pandas as pd
 
-from ylearn.utils import drop_none, set_random_state, logging
+from ylearn.utils import set_random_state, logging
 from ._base import BaseDiscovery
 
 devnull = open(os.devnull, "w")
@@ -61,12 +61,14 @@ class GCastleProxy(BaseDiscovery):
         logger.info(f'discovery causation with {type(learner).__name__}')
         learner.learn(data)
         matrix = learner.causal_matrix
+        if threshold is not None:
+            matrix = np.where(np.abs(matrix) < threshold, 0, matrix)
 
         if columns is not None:
             matrix = pd.DataFrame(matrix, columns=columns, index=columns)
 
         if return_dict:
-            result = self.matrix2dict(matrix, **drop_none(threshold=threshold))
+            result = self.matrix2dict(matrix)
         else:
             result = matrix
 
-- 
2.43.0


From 63a2818b0c7e8d12fd79258ec9979855cd22bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 124/171] fix: negative causes were ignored to identify
 covariates and instruments

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea4256c..a9dce55 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -205,7 +205,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
 
         n = len(causal_matrix)
         names = causal_matrix.columns.tolist()
-        matrix_values = np.where(causal_matrix.values > 0, 1, 0)
+        matrix_values = np.where(causal_matrix.values != 0, 1, 0)
         g = nx.from_numpy_array(matrix_values, create_using=nx.DiGraph).reverse()
 
         yi = names.index(outcome)
-- 
2.43.0


From cecb72304cf75c1aae7cd3a6630e5cd5e9fa6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 125/171] fix: descendants of the outcome were identified as
 covariates by the straight method

---
 ylearn/api/_identifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index a9dce55..0cf64b9 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -187,9 +187,9 @@ class IdentifierWithDiscovery(DefaultIdentifier):
         if isinstance(treatment, str):
             treatment = [treatment, ]
         xy = treatment + [outcome]
-        var_x = [k for k, v in m0.items() if
-                 any(map(lambda t: t in v and k not in xy, treatment))]
-        var_y = [k for k, v in m0.items() if outcome in v and k not in xy]
+        var_x = [k for k in m0.keys() if
+                 any(map(lambda t: k in m0[t] and k not in xy, treatment))]
+        var_y = [k for k in m0.keys() if k in m0[outcome] and k not in xy]
 
         instrument = [c for c in var_x if c in set(var_x).difference(set(var_y)) and c not in xy]
         covariate = [c for c in var_y if c not in instrument and c not in xy]
-- 
2.43.0


From 60acda2b679ce47d64ef416ba448c6d8cb460b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 126/171] fix: instruments were searched in the transitive
 closure of the discovered graph, so never found

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index 0cf64b9..f8dda76 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -138,7 +138,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             method = ('backdoor', 'simple')
 
         from ylearn.causal_discovery import BaseDiscovery
-        causal_dict = BaseDiscovery.matrix2dict(causal_matrix)
+        causal_dict = BaseDiscovery.matrix2dict(causal_matrix, depth=1)
         cg = CausalGraph(causal_dict)
         cm = CausalModel(cg)
         try:
-- 
2.43.0


From b57d76f090707ac53af2d18c090f2becbf1491dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 127/171] fix: Why.causal_graph failed for a discovered graph

---
 ylearn/api/_why.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 70c662d..c523ae9 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -565,9 +565,8 @@ class Why:
             if isinstance(self.identifier_, IdentifierWithDiscovery) else None
 
         if causation is not None:
-            threshold = causation.values.diagonal().max()
             from ylearn.causal_discovery import BaseDiscovery
-            m = BaseDiscovery.matrix2dict(causation, threshold=threshold)
+            m = BaseDiscovery.matrix2dict(causation, depth=1)
         else:
             m = {}
             fmt = partial(utils.format, line_limit=1, line_width=20)
-- 
2.43.0


From 58a6a7b6990db14f323d33a61fd9bb9f9c04f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 128/171] fix: set_random_state failed for numpy integers

---
 ylearn/utils/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index d27fd50..bc10c69 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -18,7 +18,7 @@ class const:
 
 def set_random_state(random_state):
     if random_state is not None:
-        seed = random_state if isinstance(random_state, int) \
+        seed = int(random_state) if isinstance(random_state, (int, np.integer)) \
             else random_state.randint(0, 65535)
         np.random.seed(seed)
 
-- 
2.43.0


From a2de681973c1f575280a56d355c5f2b2d36ce925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 129/171] fix: Why.causal_graph drew the effects as causes and
 left the treatments off the outcome

---
 ylearn/api/_why.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index c523ae9..d4b2cca 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -568,20 +568,22 @@ class Why:
             from ylearn.causal_discovery import BaseDiscovery
             m = BaseDiscovery.matrix2dict(causation, depth=1)
         else:
-            m = {}
             fmt = partial(utils.format, line_limit=1, line_width=20)
             label_y = f'Outcome({self.outcome_})'
             label_x = f'Treatments({fmt(self.treatment_)})'
+            m = {label_x: [], label_y: [label_x, ]}
 
             if self.adjustment_ is not None and len(self.adjustment_) > 0:
                 label_w = f'Adjustments({fmt(self.adjustment_)})'
-                m[label_w] = [label_x, label_y]
+                m[label_x].append(label_w)
+                m[label_y].append(label_w)
             if self.covariate_ is not None and len(self.covariate_) > 0:
                 label_v = f'Covariates({fmt(self.covariate_)})'
-                m[label_v] = [label_x, label_y]
+                m[label_x].append(label_v)
+                m[label_y].append(label_v)
             if self.instrument_ is not None and len(self.instrument_) > 0:
                 label_z = f'Instruments({fmt(self.instrument_)})'
-                m[label_z] = [label_x, ]
+                m[label_x].append(label_z)
 
         cg = CausalGraph(m)
         return cg
-- 
2.43.0


From 36d45f6daf9bafaec0ba8018543a80889dec1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 130/171] fix: DiGraph lost the nodes without edges and failed
 for a CausalGraph

---
 ylearn/bayesian/_dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index ccef825..59fce60 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -11,10 +11,12 @@ class DiGraph(nx.DiGraph):
     def __init__(self, graph, acyclic=None):
         if isinstance(graph, CausalGraph):
             g = graph.dag
-            graph_data = g.edges
+            graph_data = nx.DiGraph([(u, v) for u, v, *_ in g.edges])
+            graph_data.add_nodes_from(g.nodes)
         elif isinstance(graph, nx.Graph):
             g = graph
-            graph_data = graph.edges(data=True)
+            graph_data = nx.DiGraph(graph.edges(data=True))
+            graph_data.add_nodes_from(graph.nodes(data=True))
         elif isinstance(graph, pd.DataFrame):
             g = nx.from_pandas_adjacency(graph, create_using=nx.DiGraph)
             graph_data = g
-- 
2.43.0


From 0c7d555df6ec63272ab1bf554b1c1459e8a7aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 131/171] fix: the blanket of a single node took its name for a
 list of letters

---
 ylearn/bayesian/_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 59fce60..af43175 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -136,7 +136,7 @@ class DiGraph(nx.DiGraph):
             blanket = self.get_upstream_blanket(nodes, topo_sorted=topo_sorted)
 
         if not return_self:
-            for n in nodes:
+            for n in to_list(nodes, name='nodes'):
                 if n in blanket:
                     blanket.remove(n)
         return blanket
-- 
2.43.0


From 7d87a9e76a52808f463d7b7e21d95e8d5a0f2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 132/171] fix: unknown classes were silently taken for another
 class by Bayesian networks

---
 ylearn/bayesian/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/bayesian/_base.py b/ylearn/bayesian/_base.py
index d6e9568..17fcf6b 100644
--- a/ylearn/bayesian/_base.py
+++ b/ylearn/bayesian/_base.py
@@ -65,7 +65,10 @@ class CategoryNodeState(BState):
         """
         classes to indices
         """
+        value = np.asarray(value)
         r = np.searchsorted(self.classes, value)
+        if not np.all(np.take(self.classes, r, mode='clip') == value):
+            raise ValueError(f'Unknown classes found, expected: {self.classes.tolist()}.')
         return r
 
     def decode(self, value):
-- 
2.43.0


From 24bd4c9232d8e07e0d3c943fc33c4011340edf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 133/171] fix: Bayesian networks ignored the seed zero

---
 ylearn/bayesian/_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index c285c5d..4518688 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -254,7 +254,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         interventions = self.interventions
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if data is not None:
@@ -287,7 +287,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         model = self.model_
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         test_data = DataLoader(states).spread(data)
@@ -334,7 +334,7 @@ class BayesianNetwork(BObject):
                     num_samples=_DEFAULT_SAMPLE_NUMBER, proba=False, random_state=None):
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if self.infer_ is not None:
@@ -369,7 +369,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -455,7 +455,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -590,7 +590,7 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         loader = DataLoader(data=data)
@@ -648,7 +648,7 @@ class SviBayesianNetwork(BayesianNetwork):
            blanket='markov', epochs=100, lr=0.005, ce_loss=False,
            inplace=True, random_state=None, verbose=1):
         assert isinstance(intervention, dict) and len(intervention) > 0
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         obj = self._get_stub(inplace)
-- 
2.43.0


From ebdbd2668d895a9c02e7f348971b560f2f0643bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 134/171] fix: sampling and prediction of Bayesian networks
 wrote the interventions, rounded, into the fitted parameters

---
 ylearn/bayesian/_network.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 4518688..6c204ef 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -248,6 +248,12 @@ class BayesianNetwork(BObject):
     def interventions(self):
         return deepcopy(self.interventions_) if self.interventions_ is not None else {}
 
+    def _get_conditions(self):
+        condition = dict(self.fitted_params)
+        for k, v in self.interventions.items():
+            condition[k] = torch.tensor(np.asarray(self.state_[k].encode(v)))
+        return condition
+
     @torch.no_grad()
     def sample(self, data=None, *, n_samples=None, nodes=None, random_state=None):
         model = self.model_
@@ -265,13 +271,7 @@ class BayesianNetwork(BObject):
             data_t = DataLoader(states).spread(data)
         else:
             data_t = None
-        condition = self.fitted_params
-        interventions = self.interventions
-        if len(interventions) > 0:
-            states = self.state_
-            interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-            condition.update(interventions)
-        model = poutine.condition(model, condition)
+        model = poutine.condition(model, self._get_conditions())
 
         samples = model(data=data_t, n_samples=n_samples, nodes=nodes)
 
@@ -305,14 +305,8 @@ class BayesianNetwork(BObject):
         collector_creator = partial(self._create_collector, proba=proba)
         collectors = BCollectorList(outcome, collector_creator)
 
-        condition = self.fitted_params
-        interventions = self.interventions
-        if len(interventions) > 0:
-            interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-            condition.update(interventions)
-
         # sampling
-        conditioned_model = poutine.condition(model, condition)
+        conditioned_model = poutine.condition(model, self._get_conditions())
         for i in range(num_samples):
             # if self.infer_ is not None:
             #     posterior = self.infer_.get_samples(num_samples=1)
-- 
2.43.0


From eac7268a2d34ef29b577805c54f41c445ca087f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 135/171] fix: predicting an intervened variable failed or gave
 another value

---
 ylearn/bayesian/_collectors.py | 2 +-
 ylearn/bayesian/_network.py    | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_collectors.py b/ylearn/bayesian/_collectors.py
index 85efc43..319b591 100644
--- a/ylearn/bayesian/_collectors.py
+++ b/ylearn/bayesian/_collectors.py
@@ -15,7 +15,7 @@ class NumberSampleCollector(_base.BCollector):
         if self.value is None:
             self.value = value
         else:
-            self.value += value
+            self.value = self.value + value
         self.n_sample += 1
 
     def to(self, result):
diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 6c204ef..cef8feb 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -315,6 +315,11 @@ class BayesianNetwork(BObject):
             #     posterior = self.guide_(test_data)
             trace = poutine.trace(conditioned_model).get_trace(test_data)
             # print('G1', trace.nodes['G1']['value'][0])
+            for c in outcome:
+                value = trace.nodes[c]['value']
+                if value.ndim == 0:
+                    # doing intervention
+                    trace.nodes[c]['value'] = value.repeat(len(data))
             collectors(trace)
 
         # collect result
-- 
2.43.0


From 49528e6eecfa195a3d859a58c1186add88bb3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 136/171] fix: effects estimated by Bayesian networks were zero
 if the data had the outcome, and ignored interventions

---
 ylearn/bayesian/_network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index cef8feb..92e7dae 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -3,6 +3,7 @@ from copy import deepcopy
 from functools import partial
 from io import BytesIO
 
+import networkx as nx
 import numpy as np
 import pandas as pd
 import pyro
@@ -489,7 +490,7 @@ class BayesianNetwork(BObject):
         model = self.model_
         nodes = self.graph.get_blanket(outcome, kind='upstream', topo_sorted=True)
         model = partial(model.model, nodes=nodes)
-        model = poutine.condition(model, self.fitted_params)
+        model = poutine.condition(model, self._get_conditions())
 
         collector_creator = partial(self._create_collector, proba=True)
         t_collectors = BCollectorList(outcome, collector_creator)
@@ -497,6 +498,11 @@ class BayesianNetwork(BObject):
 
         # sampling
         test_data = DataLoader(self.state_).spread(data)
+        # the variables changed by treatment should be sampled
+        for t in treatment:
+            for n in nx.descendants(self.graph, t):
+                if n not in treatment:
+                    test_data.pop(n, None)
         for i in range(num_samples):
             with pyro.condition(data=treat_kv):
                 trace = poutine.trace(model).get_trace(test_data)
-- 
2.43.0


From 00b70d925fb02dcb6674c337f2f2b5305e996fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 137/171] fix: interventions on Bayesian networks changed the
 distribution of variables that are not after them

---
 ylearn/bayesian/_network.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 92e7dae..7ce3161 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -706,6 +706,16 @@ class SviBayesianNetwork(BayesianNetwork):
         # cmp_params(obj.params_, params)
         # print('>' * 50)
 
+        # only the variables after intervention are changed
+        changed = set()
+        for n in intervention.keys():
+            changed.update(nx.descendants(obj.graph, n))
+        nodes = sorted(obj.graph.get_nodes(), key=len)
+        for k, v in obj.params_.items():
+            owner = [n for n in nodes if k.startswith(f'{n}__')][-1]
+            if owner not in changed:
+                params[k] = v
+
         obj.interventions_ = intervention_
         obj.params_ = params
         obj.pyro_param_state_ = _get_pyro_params()
-- 
2.43.0


From 893fed310533734f528de185fe40ce3ce23648e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 138/171] fix: refitted Bayesian networks kept the
 interventions on their earlier fit

---
 ylearn/bayesian/_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 7ce3161..ef343c9 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -643,6 +643,7 @@ class SviBayesianNetwork(BayesianNetwork):
         obj.state_ = state
         obj.model_ = model
         obj.params_ = params
+        obj.interventions_ = None
         obj.guide_ = guide
         obj.pyro_param_state_ = _get_pyro_params()
 
-- 
2.43.0


From b4f9a2e6b964a4cded31dc08ea24cfc06bfbd3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:58 +0000
Subject: [PATCH 139/171] fix: predict_raw of Bayesian networks always failed

---
 ylearn/bayesian/_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index ef343c9..f6255aa 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -337,15 +337,20 @@ class BayesianNetwork(BObject):
         if random_state is not None:
             set_random_state(random_state)
 
-        if self.infer_ is not None:
+        interventions = {k: v.repeat(len(data)) for k, v in self._get_conditions().items() if k in self.interventions}
+        model = poutine.condition(self.model_, interventions)
+
+        if getattr(self, 'infer_', None) is not None:
             mcmc_samples = self.infer_.get_samples(num_samples=num_samples)
-            predictive = Predictive(self.model_, posterior_samples=mcmc_samples, num_samples=num_samples,
+            predictive = Predictive(model, posterior_samples=mcmc_samples, num_samples=num_samples,
                                     return_sites=outcome)
         else:
-            predictive = Predictive(self.model_, guide=self.guide_, num_samples=num_samples,
+            predictive = Predictive(model, guide=self.guide_, num_samples=num_samples,
                                     return_sites=outcome)
 
         test_data = DataLoader(self.state_).spread(data)
+        for c in outcome:
+            test_data.pop(c, None)
         samples = predictive(test_data)
 
         # collect result
-- 
2.43.0


From 0ff765b35348bff71a325459056326d4be905b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 140/171] fix: interventions on Bayesian networks failed for an
 empty blanket

---
 ylearn/bayesian/_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index f6255aa..24f78c6 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -699,6 +699,8 @@ class SviBayesianNetwork(BayesianNetwork):
         blanket_nodes = obj.graph.get_blanket(list(intervention.keys()), kind=blanket, return_self=False)
         # print('blanket:', blanket_nodes)
         n_weight = len(blanket_nodes) * n_samples
+        if n_weight == 0:
+            epochs = 0  # nothing to update
         for i in range(epochs):
             loss = svi.step(data=data_t, n_samples=n_samples, nodes=blanket_nodes) / n_weight
             if verbose and (i + 1) % 20 == 0:
-- 
2.43.0


From 61e6fe91e0c00995d4024fb16c355177b5f5cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 141/171] fix: a failed intervention on a Bayesian network was
 kept

---
 ylearn/bayesian/_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 24f78c6..6d3bba5 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -664,7 +664,7 @@ class SviBayesianNetwork(BayesianNetwork):
 
         obj = self._get_stub(inplace)
 
-        intervention_ = obj.interventions_ if obj.interventions_ else {}
+        intervention_ = obj.interventions
         intervention_.update(intervention)
 
         intervention_encoded = {k: self.state_[k].encode(v) for k, v in intervention_.items()}
-- 
2.43.0


From c99af3b9d55c314d5ea4af2cc0ba70f01d2a2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 142/171] fix: refitting a Bayesian network failed for other
 classes, and depended on its earlier fit

---
 ylearn/bayesian/_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 6d3bba5..89cc146 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -46,7 +46,8 @@ def with_pyro_ps(fn, check_fitted=True):
             assert getattr(obj, '_is_fitted', None) is True, f'{type(obj).__name__} is not fitted.'
 
         if resume_param_state:
-            param_state = getattr(obj, 'pyro_param_state', None)
+            # a new fit starts from scratch
+            param_state = getattr(obj, 'pyro_param_state', None) if check_fitted else None
             # with pyro.get_param_store().scope(param_state):
             #     return fn(obj, *args, **kwargs)
 
-- 
2.43.0


From 8bfcffe0bf834dab6b849f590280e48df6661643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 143/171] fix: Bayesian networks could not predict the only
 column of the data

---
 ylearn/bayesian/_network.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 89cc146..b12df0c 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -102,7 +102,7 @@ class BayesianModel(BObject):
             data = {}
             if n_samples is None:
                 n_samples = 1
-        else:
+        elif len(data) > 0:
             n_samples = len(next(iter(data.values())))  # get N from the first data item
 
         graph = self.graph
@@ -315,7 +315,7 @@ class BayesianNetwork(BObject):
             #     posterior = {k: v[0] for k, v in posterior.items()}
             # else:
             #     posterior = self.guide_(test_data)
-            trace = poutine.trace(conditioned_model).get_trace(test_data)
+            trace = poutine.trace(conditioned_model).get_trace(test_data, n_samples=len(data))
             # print('G1', trace.nodes['G1']['value'][0])
             for c in outcome:
                 value = trace.nodes[c]['value']
@@ -352,7 +352,7 @@ class BayesianNetwork(BObject):
         test_data = DataLoader(self.state_).spread(data)
         for c in outcome:
             test_data.pop(c, None)
-        samples = predictive(test_data)
+        samples = predictive(test_data, n_samples=len(data))
 
         # collect result
         collector_creator = partial(self._create_collector, proba=proba)
@@ -425,12 +425,12 @@ class BayesianNetwork(BObject):
         for i in range(num_samples):
             # with poutine.block(hide=outcome + treatment):
             #         trace_stub = model_trace.get_trace(test_data)
-            trace_stub = model_trace.get_trace(test_data)
+            trace_stub = model_trace.get_trace(test_data, n_samples=len(data))
             with pyro.do(data=treat_kv):
-                trace = poutine.trace(poutine.replay(cf_model, trace_stub)).get_trace(test_data)
+                trace = poutine.trace(poutine.replay(cf_model, trace_stub)).get_trace(test_data, n_samples=len(data))
                 t_collectors(trace)
             with pyro.do(data=control_kv):
-                trace = poutine.trace(poutine.replay(cf_model, trace_stub)).get_trace(test_data)
+                trace = poutine.trace(poutine.replay(cf_model, trace_stub)).get_trace(test_data, n_samples=len(data))
                 c_collectors(trace)
 
             # with poutine.trace() as tr, poutine.block(hide=outcome + treatment):
@@ -511,10 +511,10 @@ class BayesianNetwork(BObject):
                     test_data.pop(n, None)
         for i in range(num_samples):
             with pyro.condition(data=treat_kv):
-                trace = poutine.trace(model).get_trace(test_data)
+                trace = poutine.trace(model).get_trace(test_data, n_samples=len(data))
                 t_collectors(trace)
             with pyro.condition(data=control_kv):
-                trace = poutine.trace(model).get_trace(test_data)
+                trace = poutine.trace(model).get_trace(test_data, n_samples=len(data))
                 c_collectors(trace)
 
             if callable(verbose):
-- 
2.43.0


From d5a4acdea6fbfc195c9b47c40e83fc2bcf401ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 144/171] fix: effects on an intervened variable of a Bayesian
 network could not be estimated

---
 ylearn/bayesian/_network.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index b12df0c..e502d8e 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -250,10 +250,10 @@ class BayesianNetwork(BObject):
     def interventions(self):
         return deepcopy(self.interventions_) if self.interventions_ is not None else {}
 
-    def _get_conditions(self):
+    def _get_conditions(self, n_samples=1):
         condition = dict(self.fitted_params)
         for k, v in self.interventions.items():
-            condition[k] = torch.tensor(np.asarray(self.state_[k].encode(v)))
+            condition[k] = torch.tensor(np.asarray(self.state_[k].encode(v))).repeat(n_samples)
         return condition
 
     @torch.no_grad()
@@ -273,7 +273,11 @@ class BayesianNetwork(BObject):
             data_t = DataLoader(states).spread(data)
         else:
             data_t = None
-        model = poutine.condition(model, self._get_conditions())
+        if data is not None:
+            n_samples = len(data)
+        elif n_samples is None:
+            n_samples = 1
+        model = poutine.condition(model, self._get_conditions(n_samples))
 
         samples = model(data=data_t, n_samples=n_samples, nodes=nodes)
 
@@ -308,7 +312,7 @@ class BayesianNetwork(BObject):
         collectors = BCollectorList(outcome, collector_creator)
 
         # sampling
-        conditioned_model = poutine.condition(model, self._get_conditions())
+        conditioned_model = poutine.condition(model, self._get_conditions(len(data)))
         for i in range(num_samples):
             # if self.infer_ is not None:
             #     posterior = self.infer_.get_samples(num_samples=1)
@@ -317,11 +321,6 @@ class BayesianNetwork(BObject):
             #     posterior = self.guide_(test_data)
             trace = poutine.trace(conditioned_model).get_trace(test_data, n_samples=len(data))
             # print('G1', trace.nodes['G1']['value'][0])
-            for c in outcome:
-                value = trace.nodes[c]['value']
-                if value.ndim == 0:
-                    # doing intervention
-                    trace.nodes[c]['value'] = value.repeat(len(data))
             collectors(trace)
 
         # collect result
@@ -338,7 +337,7 @@ class BayesianNetwork(BObject):
         if random_state is not None:
             set_random_state(random_state)
 
-        interventions = {k: v.repeat(len(data)) for k, v in self._get_conditions().items() if k in self.interventions}
+        interventions = {k: v for k, v in self._get_conditions(len(data)).items() if k in self.interventions}
         model = poutine.condition(self.model_, interventions)
 
         if getattr(self, 'infer_', None) is not None:
@@ -496,7 +495,7 @@ class BayesianNetwork(BObject):
         model = self.model_
         nodes = self.graph.get_blanket(outcome, kind='upstream', topo_sorted=True)
         model = partial(model.model, nodes=nodes)
-        model = poutine.condition(model, self._get_conditions())
+        model = poutine.condition(model, self._get_conditions(len(data)))
 
         collector_creator = partial(self._create_collector, proba=True)
         t_collectors = BCollectorList(outcome, collector_creator)
-- 
2.43.0


From 21723045ac2d0702e7da6e554d816e26903941de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 145/171] fix: SafeOrdinalEncoder lost the index of the frame

---
 ylearn/sklearn_ex/_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 32bac04..c832a98 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -71,7 +71,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data, dtype=self.dtype)
+            result = pd.DataFrame(data, dtype=self.dtype, index=X.index)
         else:
             result = np.stack(result, axis=1)
             if self.dtype != result.dtype:
@@ -103,7 +103,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data)
+            result = pd.DataFrame(data, index=X.index)
         else:
             result = np.stack(result, axis=1)
 
-- 
2.43.0


From 16743a745e5f64a16141d857dcea3e9248d03bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 146/171] fix: SafeOrdinalEncoder could not invert its own
 codes

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index c832a98..3aad650 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -92,7 +92,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
                 default_value = None
                 dtype = object
             unseen = len(categories)
-            vf = np.vectorize(lambda x: categories[x] if unseen > x >= 0 else default_value,
+            vf = np.vectorize(lambda x: categories[int(x)] if unseen > x >= 0 else default_value,
                               otypes=[dtype])
             return vf
 
-- 
2.43.0


From 4441daeaf075b68d092d1a6bde25b0406fa718f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 147/171] fix: SafeOrdinalEncoder took known missing values for
 unseen and failed for an empty frame

---
 ylearn/sklearn_ex/_transformer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 3aad650..47c27b5 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -61,9 +61,15 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         def make_encoder(categories):
             unseen = len(categories)
             m = dict(zip(categories, range(unseen)))
-            vf = np.vectorize(lambda x: m[x] if x in m.keys() else unseen)
+            # nan is equal to nothing, it is known if there is one in categories
+            missing = [i for i, c in enumerate(categories) if _is_nan(c)]
+            nan_code = missing[-1] if missing else unseen
+            vf = np.vectorize(lambda x: nan_code if _is_nan(x) else m.get(x, unseen), otypes=[int])
             return vf
 
+        def _is_nan(x):
+            return x is not None and pd.api.types.is_scalar(x) and pd.isna(x)
+
         values = X if isinstance(X, np.ndarray) else X.values
         encoders_ = [make_encoder(cat) for cat in self.categories_]
         result = [encoders_[i](values[:, i]) for i in range(values.shape[1])]
-- 
2.43.0


From a016796cfef33e863ab2e8bfd17bc18b1f8baeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 148/171] fix: a refitted DataCleaner dropped the columns of
 its earlier fit

---
 ylearn/sklearn_ex/_data_cleaner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index a102852..34bbb94 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -285,6 +285,10 @@ class DataCleaner:
         if copy_data:
             X, y = self._copy(X, y)
 
+        self.dropped_constant_columns_ = None
+        self.dropped_idness_columns_ = None
+        self.dropped_duplicated_columns_ = None
+
         X, y = self.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
 
         logger.debug('collect meta info from data')
-- 
2.43.0


From 8efde04abdd137535b51db5dd130b376e745dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 149/171] fix: DataCleaner corrupted values that do not fit the
 integer or bool type of the training data

---
 ylearn/sklearn_ex/_data_cleaner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index 34bbb94..c4339f4 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -84,7 +84,9 @@ class _CleanerHelper:
                 for col in columns:
                     try:
                         if str(X[col].dtype) != str(dtype):
-                            X[col] = X[col].astype(dtype)
+                            Xt = X[col].astype(dtype)
+                            if Xt.dtype.kind not in 'iub' or (Xt == X[col]).all():
+                                X[col] = Xt
                     except Exception as e:
                         if logger.is_debug_enabled():
                             logger.debug(f'Correct object column [{col}] as {dtype} failed. {e}')
-- 
2.43.0


From 2c933554f722961ea107deb0c8cedf6ef70f5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 150/171] fix: a refitted feature selection kept the task
 inferred from its earlier data

---
 ylearn/sklearn_ex/_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 47c27b5..3d0a6ad 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -145,8 +145,9 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         self.selected_features_ = None
 
     def fit(self, X, y):
-        if self.task is None:
-            self.task, _ = infer_task_type(y)
+        task = self.task
+        if task is None:
+            task, _ = infer_task_type(y)
 
         columns_in = X.columns.to_list()
         # logger.info(f'all columns: {columns}')
@@ -164,7 +165,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression':
+        if task != 'regression':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
@@ -172,7 +173,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         logger.info('preprocessing')
         X = preprocessor.fit_transform(X, y)
 
-        estimator = general_estimator(X, y, task=self.task)
+        estimator = general_estimator(X, y, task=task)
         logger.info(f'scoring feature_importances with {estimator} ')
         estimator.fit(X, y)
         importances = estimator.feature_importances_
-- 
2.43.0


From 1b09f6deeb691741ebdb2d9c4cf5773a4f07b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 151/171] fix: importances of features were in another order
 than the names of features

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 3d0a6ad..29a21bd 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -186,7 +186,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         columns = X.columns.to_list()
         selected = [columns[i] for i in selected]
 
-        if len(columns) != len(columns_in):
+        if columns != columns_in:
             importances = [0.0 if c not in columns else importances[columns.index(c)] for c in columns_in]
             importances = np.array(importances)
 
-- 
2.43.0


From 4af2661dea48eec560aad68073eff2637f6acd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 152/171] fix: general_estimator took every inferred task for
 classification

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 29a21bd..27d31ef 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -395,7 +395,7 @@ def general_estimator(X, y=None, estimator=None, task=None, random_state=None, *
 
     if task is None:
         assert y is not None, '"y" or "task" is required.'
-        task = infer_task_type(y)
+        task, _ = infer_task_type(y)
     elif isinstance(task, bool):  # discrete or not
         task = const.TASK_MULTICLASS if task else const.TASK_REGRESSION
 
-- 
2.43.0


From 0f8ec7269b0e8232af081ff88f3bcf1866379e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 153/171] fix: infer_task_type counted missing values as values

---
 ylearn/utils/_common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index bc10c69..62e40a5 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -190,10 +190,7 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
 
     uniques = unique(y)
     if dropna:
-        if uniques.__contains__(np.nan):
-            uniques.remove(np.nan)
-        if uniques.__contains__(None):
-            uniques.remove(None)
+        uniques = set(u for u in uniques if not pd.isna(u))
     if excludes is not None and len(excludes) > 0:
         uniques -= set(excludes)
     n_unique = len(uniques)
-- 
2.43.0


From 7f742c684a28b7a623cf1cc7ebb67d1e857441c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 154/171] fix: infer_task_type failed for a single column

---
 ylearn/utils/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index 62e40a5..c928c5a 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -188,6 +188,11 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
         task = const.TASK_MULTILABEL
         return task, labels
 
+    if isinstance(y, pd.DataFrame):
+        y = y.iloc[:, 0]
+    elif len(y.shape) > 1:
+        y = y.reshape(-1)
+
     uniques = unique(y)
     if dropna:
         uniques = set(u for u in uniques if not pd.isna(u))
-- 
2.43.0


From 07823f54d30e2098806cf0f863cf4554a75b443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 155/171] fix: infer_task_type took all unsigned integers for
 classes

---
 ylearn/utils/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index c928c5a..a71f672 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -209,7 +209,7 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
         task = const.TASK_BINARY
     elif y.dtype.kind == 'f':
         task = const.TASK_REGRESSION
-    elif y.dtype.kind == 'i':
+    elif y.dtype.kind in 'iu':
         n_sample = len(y)
         if n_unique > n_sample ** regression_exponent:
             task = const.TASK_REGRESSION
-- 
2.43.0


From 187c64cce95790b955a5525470561ed0c1d6742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 156/171] fix: a column without any value made
 general_preprocessor lose the names of numerical columns

---
 ylearn/sklearn_ex/_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 27d31ef..f7974c6 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -265,7 +265,11 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 def general_preprocessor(*, number_scaler=None):
     cat_steps = [('imputer_cat', SimpleImputer(strategy='constant', fill_value='')),
                  ('encoder', SafeOrdinalEncoder())]
-    num_steps = [('imputer_num', SimpleImputer(strategy='mean')),
+    imputer_options = {}
+    if 'keep_empty_features' in inspect.signature(SimpleImputer.__init__).parameters.keys():
+        # otherwise the columns without any value are dropped, and the others lose their names
+        imputer_options['keep_empty_features'] = True
+    num_steps = [('imputer_num', SimpleImputer(strategy='mean', **imputer_options)),
                  # ('scaler', StandardScaler()),
                  ]
     if number_scaler is True:
-- 
2.43.0


From c22e4baccdd2e5bb5480d9dcb688f7cd380bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 157/171] fix: general_preprocessor failed for categories of
 numbers and mixed types, and lost columns of strings

---
 ylearn/sklearn_ex/_transformer.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index f7974c6..727821d 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -8,7 +8,7 @@ from sklearn.base import BaseEstimator
 from sklearn.compose import make_column_selector
 from sklearn.impute import SimpleImputer
 from sklearn.pipeline import Pipeline
-from sklearn.preprocessing import OrdinalEncoder, LabelEncoder, StandardScaler, OneHotEncoder
+from sklearn.preprocessing import OrdinalEncoder, LabelEncoder, StandardScaler, OneHotEncoder, FunctionTransformer
 
 from ylearn.utils import logging, const, infer_task_type, is_os_darwin
 from ._data_cleaner import DataCleaner
@@ -54,6 +54,22 @@ class ArrayOneHotEncoder(OneHotEncoder):
 class SafeOrdinalEncoder(OrdinalEncoder):
     __doc__ = r'Adapted from sklearn OrdinalEncoder\n' + OrdinalEncoder.__doc__
 
+    def fit(self, X, y=None):
+        try:
+            return super().fit(X, y)
+        except TypeError:
+            # there are values of different types in a column, which are not ordered
+            values = np.asarray(X, dtype=object)
+            if values.ndim != 2 or not isinstance(self.categories, str):
+                raise
+
+        self.n_features_in_ = values.shape[1]
+        if isinstance(X, pd.DataFrame):
+            self.feature_names_in_ = X.columns.to_numpy(dtype=object)
+        self.categories_ = [np.array(sorted(set(values[:, i]), key=lambda v: (type(v).__name__, v)), dtype=object)
+                            for i in range(values.shape[1])]
+        return self
+
     def transform(self, X, y=None):
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("Unexpected type {}".format(type(X)))
@@ -262,8 +278,14 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         return selected, unselected
 
 
+def _to_object(X):
+    X = X.astype(object)
+    return X.where(X.notna(), np.nan)
+
+
 def general_preprocessor(*, number_scaler=None):
-    cat_steps = [('imputer_cat', SimpleImputer(strategy='constant', fill_value='')),
+    cat_steps = [('to_object', FunctionTransformer(_to_object)),
+                 ('imputer_cat', SimpleImputer(strategy='constant', fill_value='')),
                  ('encoder', SafeOrdinalEncoder())]
     imputer_options = {}
     if 'keep_empty_features' in inspect.signature(SimpleImputer.__init__).parameters.keys():
@@ -279,7 +301,7 @@ def general_preprocessor(*, number_scaler=None):
     num_transformer = Pipeline(steps=num_steps)
     bool_transformer = SafeOrdinalEncoder()
 
-    cat_selector = make_column_selector(dtype_include=['object', 'category'])
+    cat_selector = make_column_selector(dtype_include=['object', 'category', 'string'])
     bool_selector = make_column_selector(dtype_include='bool')
     num_selector = make_column_selector(dtype_include='number', dtype_exclude='timedelta')
 
-- 
2.43.0


From b6153e7fc77219cad0874fed6720f6fe2271e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 158/171] fix: SafeOrdinalEncoder ordered missing values among
 the others when the types were mixed

---
 ylearn/sklearn_ex/_transformer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 727821d..e52a907 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -66,8 +66,16 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         self.n_features_in_ = values.shape[1]
         if isinstance(X, pd.DataFrame):
             self.feature_names_in_ = X.columns.to_numpy(dtype=object)
-        self.categories_ = [np.array(sorted(set(values[:, i]), key=lambda v: (type(v).__name__, v)), dtype=object)
-                            for i in range(values.shape[1])]
+        self.categories_ = []
+        for i in range(values.shape[1]):
+            col = pd.Series(values[:, i], dtype=object)
+            categories = sorted(set(col.dropna()), key=lambda v: (type(v).__name__, v))
+            # the missing ones are the last, as usual
+            if any(v is None for v in col):
+                categories.append(None)
+            if any(v is not None for v in col[col.isna()]):
+                categories.append(np.nan)
+            self.categories_.append(pd.Series(categories, dtype=object).values)
         return self
 
     def transform(self, X, y=None):
-- 
2.43.0


From e101a8a59af4c880ae4a4ca5cd9b612b4798148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 159/171] fix: RLoss scored the wrong level, columns by
 position, and failed for trees, forests, IV and probabilities of classes

The treatment level of an SLearner and of a reversed pair of a permuted learner
was not the code of the level estimated; the validation columns were
handed over by position; a refit kept the levels of the previous fit.
---
 ylearn/api/_why.py                     | 20 ++++--
 ylearn/estimator_model/_permuted.py    |  9 ++-
 ylearn/estimator_model/effect_score.py | 91 ++++++++++++++++----------
 ylearn/estimator_model/meta_learner.py | 34 +++++-----
 4 files changed, 95 insertions(+), 59 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index d4b2cca..edad651 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -343,7 +343,7 @@ class Why:
         if instrument is not None and len(instrument) > 0:
             estimator = 'iv'
         # elif x_task in {const.TASK_BINARY, const.TASK_MULTICLASS}:
-        elif self.discrete_treatment or self.discrete_outcome:
+        elif self.discrete_treatment:
             estimator = 'tlearner'
         else:
             estimator = 'dml'
@@ -492,8 +492,9 @@ class Why:
         scorers = {}
         for x in self.treatment_:
             # x_task, _ = infer_task_type(data[x])
+            # the residuals need the mean of the outcome, even if it is discrete
             scorer = factory(data, self.outcome_,
-                             y_task=self.discrete_outcome,
+                             y_task=False,
                              x_task=self.discrete_treatment,
                              treatment=x,
                              adjustment=self.adjustment_,
@@ -973,7 +974,7 @@ class Why:
             return self._score_auuc_qini(test_data, treat=treat, control=control,
                                          target_outcome=target_outcome, scorer=scorer)
         else:
-            return self._score_rloss(test_data, treat=treat, control=control)
+            return self._score_rloss(test_data, treat=treat, control=control, target_outcome=target_outcome)
 
     def _score_auuc_qini(self, test_data, treatment=None, treat=None, control=None, target_outcome=None, scorer='auuc'):
         # treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
@@ -1007,7 +1008,7 @@ class Why:
         score = s.mean()
         return score
 
-    def _score_rloss(self, test_data=None, treat=None, control=None):
+    def _score_rloss(self, test_data=None, treat=None, control=None, target_outcome=None):
         scorers = self._create_scorers(test_data, scorer='rloss')
         test_data = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(self.treatment_, treat, 'treat')
@@ -1024,9 +1025,16 @@ class Why:
             else:
                 treat_i = treat[i] if treat is not None else None
                 control_i = control[i] if control is not None else None
-            scorer.fit(test_data, self.outcome_, x, **fit_options)
             estimator = self.estimators_[x]
-            score_options = drop_none(treat=treat_i, control=control_i)
+            target_options = self._target_outcome_options(estimator, target_outcome)
+            if target_options:
+                # effects on the probability of a class
+                target_code = target_options['target_outcome']
+                data = test_data.assign(**{self.outcome_: (test_data[self.outcome_] == target_code).astype('int')})
+            else:
+                data = test_data
+            scorer.fit(data, self.outcome_, x, **fit_options)
+            score_options = drop_none(treat=treat_i, control=control_i, **target_options)
             sa.append(scorer.score(estimator, **score_options))
         score = np.mean(sa)
 
diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index d278794..7dcf02c 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -270,8 +270,13 @@ class PermutedLearner(BaseEstModel):
         if tc is None:
             raise ValueError('Not found the last_treat_control, call estimate firstly please.')
 
-        learner, _ = self._get_learner(tc[0], tc[1])
-        return learner.treat
+        # any learner with the level knows its code
+        for (treat, control), learner in self.learners_.items():
+            if treat == tc[0]:
+                return learner.treat
+            if control == tc[0]:
+                return learner.control
+        raise ValueError(f'Not found learner for treat: {tc[0]}')
 
     def __repr__(self):
         return f'Permuted{self.learner}'
diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..36666f4 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -8,7 +8,6 @@ performances of machine learning models.
 import inspect
 from asyncio.log import logger
 import numpy as np
-import pandas as pd
 
 # from sklearn import clone
 # from sklearn.preprocessing import OneHotEncoder
@@ -253,6 +252,7 @@ class RLoss(DoubleML):
         self.covariate = covariate
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
+        self._data = data.copy()
         self._w = w
         self._v = v
         self._y_d = y.shape[1]
@@ -271,6 +271,8 @@ class RLoss(DoubleML):
                 categories = list(self.categories)
 
             # convert discrete treatment features to onehot vectors
+            # forget the encoders of any previous fit
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
@@ -300,7 +302,7 @@ class RLoss(DoubleML):
 
         return self
 
-    def score(self, test_estimator, treat=None, control=None):
+    def score(self, test_estimator, treat=None, control=None, target_outcome=None):
         """Calculate the RLoss as a metric of the causal effect estimated by
         the test_estimator.
 
@@ -325,64 +327,83 @@ class RLoss(DoubleML):
         control : float or ndarray, optional
             This is similar to the cases of treat, by default None
 
+        target_outcome : outcome value, optional
+            The class of the outcome whose probability is affected, for estimators
+            of the effects on every class of a discrete outcome. The residuals are
+            those of the indicator of the class in this case. By default the last
+            one.
+
         Returns
         -------
         float
             The score for the test_estimator
         """
         x_prime, y_prime = self.x_hat_dict["res"][0], self.y_hat_dict["res"][0]
-        v = self._v
-        w = self._w
-
-        data_dict = {}
-        if self.covariate is not None:
-            for i, name in enumerate(test_estimator.covariate):
-                data_dict[name] = v[:, i]
-        if self.adjustment is not None:
-            for i, name in enumerate(test_estimator.adjustment):
-                data_dict[name] = w[:, i]
-
-        test_data = pd.DataFrame(data_dict)
 
-        # shape (n, y_d, x_d)
         est_params = inspect.signature(test_estimator.estimate).parameters.keys()
         est_options = {}
-        dis_tr = test_estimator.is_discrete_treatment
 
+        # the levels are encoded by the estimator
         if "treat" in est_params and treat is not None:
-            if hasattr(test_estimator, "comp_transformer"):
-                treat = get_tr_ctrl(
-                    treat,
-                    self.comp_transormer,
-                    treat=True,
-                    one_hot=False,
-                    discrete_treat=dis_tr,
-                )
             est_options["treat"] = treat
         if "control" in est_params and control is not None:
-            if hasattr(test_estimator, "comp_transformer"):
-                control = get_tr_ctrl(
-                    control,
-                    self.comp_transormer,
-                    treat=False,
-                    one_hot=False,
-                    discrete_treat=dis_tr,
-                )
             est_options["control"] = control
-        test_effect = test_estimator.estimate(data=test_data, **est_options)
+        if "target_outcome" in est_params:
+            if target_outcome is None and getattr(test_estimator, "proba_output", False):
+                target_outcome = test_estimator.outcome_classes_[-1]
+            if target_outcome is not None:
+                est_options["target_outcome"] = target_outcome
+        test_effect = test_estimator.estimate(data=self._data, **est_options)
         logger.info(
             f"Calculating the score: {test_estimator.__repr__()} finished estimating."
         )
+        if isinstance(test_effect, tuple):
+            raise ValueError("RLoss requires effects, not their bounds.")
+        # shape (n, y_d, x_d)
+        test_effect = np.asarray(test_effect)
+        test_effect = test_effect.reshape(x_prime.shape[0], self._y_d, -1)
+
         if self.is_discrete_treatment and self.combined_treatment:
             logger.info("using combined treat technique for discrete treatment.")
-            x_prime = x_prime[:, test_estimator.treat].reshape(-1, 1)
-            test_effect = test_effect.reshape(v.shape[0], self._y_d, 1)
+            x_prime = self._select_levels(
+                x_prime,
+                test_effect.shape[2],
+                test_estimator,
+                est_options.get("treat"),
+            )
 
         y_pred = np.einsum("nij, nj->ni", test_effect, x_prime)
         rloss = np.mean((y_prime - y_pred) ** 2, axis=0)
 
         return rloss
 
+    def _select_levels(self, x_prime, n_effects, test_estimator, treat=None):
+        """Select the columns of the treatment levels whose effects are estimated
+        by the test_estimator.
+        """
+        single = getattr(test_estimator, "combined_treat", True)
+
+        if treat is not None:
+            level = get_tr_ctrl(treat, self.comp_transormer, treat=True)
+        elif single and hasattr(test_estimator, "treat"):
+            level = test_estimator.treat
+            if np.size(level) > 1:
+                # one code for each of the treatments
+                level = self.label_dict[tuple(np.ravel(level).astype(int))]
+            else:
+                level = int(np.ravel(level)[0])
+        elif n_effects == x_prime.shape[1]:
+            return x_prime
+        elif n_effects == x_prime.shape[1] - 1:
+            # every level except the control
+            return np.delete(
+                x_prime, getattr(test_estimator, "_control_code", 0), axis=1
+            )
+        else:
+            level = get_tr_ctrl(None, self.comp_transormer, treat=True)
+
+        return x_prime[:, level].reshape(-1, 1)
+
     def _fit_1st_stage(self, x_model, y_model, y, x, wv, folds=None, **kwargs):
         """Fit the models in the first stage.
 
diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index d20203d..6ff5513 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -349,8 +349,6 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
@@ -359,6 +357,22 @@ class SLearner(BaseEstModel):
 
         self._is_fitted = True
 
+        # the encoded levels, as in the other estimators
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
+
         return self
 
     @property
@@ -447,20 +461,8 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        treat_index = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        control_index = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
+        treat_index = self.treat
+        control_index = self.control
 
         treat = np.zeros(
             self._x_d,
-- 
2.43.0


From 0deb741d05922f53e12b3e2f18a21409030d8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 160/171] fix: PropensityScore fitted the given model in place,
 fit_predict failed and all probabilities had no row per sample

---
 ylearn/estimator_model/propensity_score.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/propensity_score.py b/ylearn/estimator_model/propensity_score.py
index 5f91b25..3faac24 100644
--- a/ylearn/estimator_model/propensity_score.py
+++ b/ylearn/estimator_model/propensity_score.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from sklearn import linear_model
+from sklearn import clone, linear_model
 
 from .base_models import BaseEstModel
 
@@ -50,18 +50,17 @@ class PropensityScore:
         self.ml_model = ml_model
 
     def fit(self, data, treatment, adjustment):
-        self.ml_model.fit(data[adjustment], data[treatment])
+        # the given model stays as it is
+        self.ml_model = clone(self.ml_model).fit(data[adjustment], data[treatment])
 
     def predict(self, data, adjustment):
         return self.ml_model.predict(data[adjustment])
 
     def predict_proba(self, data, adjustment, target=None):
         p = self.ml_model.predict_proba(data[adjustment])
-        try:
-            p_ = p.transpose()[target]
-        except TypeError:
-            p_ = p.transpose(0, 1)[target]
-        return p_
+        if target is None:
+            return p
+        return p.transpose()[target]
 
     def fit_predict(self, train_data, treatment, adjustment, pre_data=None):
         """Combination of fit() and predict(), where the model is trained in the
@@ -79,7 +78,7 @@ class PropensityScore:
         ----------
         np.array
         """
-        self.ml_model.fit(train_data, treatment, adjustment)
+        self.fit(train_data, treatment, adjustment)
         if pre_data is None:
             pre_data = train_data
         return self.predict(pre_data, adjustment)
-- 
2.43.0


From 118e2343250c98b187799ae5648f27d02933364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 161/171] fix: feature importances of generalized random
 forests were negative

The impurities of the children are the improvement of their parent's split, they
are not comparable with the impurity of the parent.
---
 .../estimator_model/_generalized_forest/_grf.py   |  4 ++++
 .../_generalized_forest/tree/_grf_tree.py         | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_grf.py b/ylearn/estimator_model/_generalized_forest/_grf.py
index 1f0662a..b862273 100644
--- a/ylearn/estimator_model/_generalized_forest/_grf.py
+++ b/ylearn/estimator_model/_generalized_forest/_grf.py
@@ -187,3 +187,7 @@ class GRForest(BaseCausalForest):
             covariate=covariate,
             sample_weight=sample_weight,
         )
+
+    @staticmethod
+    def _tree_importances(tree):
+        return tree.feature_importances_
diff --git a/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py b/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
index 82b3eb0..6603027 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
+++ b/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
@@ -450,7 +450,20 @@ class GrfTree(BaseEstModel):
             (Gini importance).
         """
         assert self._is_fitted, "The model is not fitted yet"
-        return self.tree_.compute_feature_importances()
+        # the impurities of the two children are the shares in the improvement
+        # of the criterion by the split of their parent
+        tree = self.tree_
+        inner = tree.children_left >= 0
+        improvements = (
+            tree.impurity[tree.children_left[inner]]
+            + tree.impurity[tree.children_right[inner]]
+        )
+        importances = np.bincount(
+            tree.feature[inner], weights=improvements, minlength=tree.n_features
+        )
+        total = importances.sum()
+
+        return importances / total if total > 0 else importances
 
     def decision_path(self, w, v):
         """Return the decision path in the tree.
-- 
2.43.0


From 1974fa71c54228b7e143d69f6df15d32898b1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:13 +0000
Subject: [PATCH 162/171] fix: SafeOrdinalEncoder ordered the numbers of one
 column by their types if another column has mixed types

---
 ylearn/sklearn_ex/_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index e52a907..6212e69 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -69,7 +69,11 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         self.categories_ = []
         for i in range(values.shape[1]):
             col = pd.Series(values[:, i], dtype=object)
-            categories = sorted(set(col.dropna()), key=lambda v: (type(v).__name__, v))
+            categories = set(col.dropna())
+            try:
+                categories = sorted(categories)
+            except TypeError:
+                categories = sorted(categories, key=lambda v: (type(v).__name__, v))
             # the missing ones are the last, as usual
             if any(v is None for v in col):
                 categories.append(None)
-- 
2.43.0


From 4c8b67f98ec14fa7a0232222a244af2768bc118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 163/171] fix: PolicyTree read beyond sample weights of another
 length than the rows

---
 ylearn/policy/policy_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index 094d655..f05a455 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -14,6 +14,7 @@ import sklearn
 
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
+from sklearn.utils.validation import _check_sample_weight
 
 from ylearn.sklearn_ex.cloned.tree._splitter import Splitter
 from ylearn.sklearn_ex.cloned.tree._splitter import BestSplitter
@@ -437,6 +438,9 @@ class PolicyTree:
                 f"The number of labels {len(ce)} does not match the number of samples"
             )
 
+        if sample_weight is not None:
+            sample_weight = _check_sample_weight(sample_weight, v, np.float64)
+
         # set min_weight_leaf
         if sample_weight is None:
             min_weight_leaf = self.min_weight_fraction_leaf * n_samples
-- 
2.43.0


From dbba1e2dc31ebe3e584caea3ef7a3a4cfc013d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 164/171] fix: a corrupted pickled tree made its walks leave
 the node arrays

---
 ylearn/sklearn_ex/cloned/tree/_tree.pyx | 41 +++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/ylearn/sklearn_ex/cloned/tree/_tree.pyx b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
index fd039dd..0038211 100644
--- a/ylearn/sklearn_ex/cloned/tree/_tree.pyx
+++ b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
@@ -702,9 +702,6 @@ cdef class Tree:
 
     def __setstate__(self, d):
         """Setstate re-implementation, for unpickling."""
-        self.max_depth = d["max_depth"]
-        self.node_count = d["node_count"]
-
         if 'nodes' not in d:
             raise ValueError('You have loaded Tree version which '
                              'cannot be imported')
@@ -722,6 +719,10 @@ cdef class Tree:
             expected_shape=value_shape
         )
 
+        self._check_nodes(node_ndarray, d["node_count"], d["max_depth"])
+
+        self.max_depth = d["max_depth"]
+        self.node_count = d["node_count"]
         self.capacity = node_ndarray.shape[0]
         if self._resize_c(self.capacity) != 0:
             raise MemoryError("resizing tree to %d" % self.capacity)
@@ -730,6 +731,40 @@ cdef class Tree:
         value = memcpy(self.value, (<np.ndarray> value_ndarray).data,
                        self.capacity * self.value_stride * sizeof(double))
 
+    def _check_nodes(self, np.ndarray node_ndarray, SIZE_t node_count,
+                     SIZE_t max_depth):
+        """Raise a ValueError if the nodes to be loaded do not form a tree:
+        nothing is checked when they are visited later."""
+        if node_count < 0 or node_count > node_ndarray.shape[0]:
+            raise ValueError(f"Incorrect number of nodes in the pickle: "
+                             f"{node_count} of {node_ndarray.shape[0]}")
+
+        cdef Node* nodes = <Node*> node_ndarray.data
+        cdef SIZE_t* depth = NULL
+        cdef SIZE_t i
+        cdef bint is_valid = True
+
+        safe_realloc(&depth, node_count + 1)
+        memset(depth, 0, (node_count + 1) * sizeof(SIZE_t))
+        for i in range(node_count):
+            if depth[i] > max_depth:
+                is_valid = False
+                break
+            if nodes[i].left_child == _TREE_LEAF:
+                continue
+            # children are always added after their parent
+            if not (i < nodes[i].left_child < node_count
+                    and i < nodes[i].right_child < node_count
+                    and 0 <= nodes[i].feature < self.n_features):
+                is_valid = False
+                break
+            depth[nodes[i].left_child] = depth[i] + 1
+            depth[nodes[i].right_child] = depth[i] + 1
+        free(depth)
+
+        if not is_valid:
+            raise ValueError("The nodes in the pickle do not form a tree")
+
     cdef int _resize(self, SIZE_t capacity) nogil except -1:
         """Resize all inner arrays to `capacity`, if `capacity` == -1, then
            double the size of the inner arrays.
-- 
2.43.0


From dd4babf327719d73be64503ccbc0a590c55d44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 165/171] fix: generators failed for noise scales of nonlinear
 models and with current networkx

---
 ylearn/exp_dataset/gen.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index b4e185a..e5ecc4c 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -194,7 +194,14 @@ def simulate_nonlinear_sem(B, n, sem_type, noise_scale=None):
         return x
 
     d = B.shape[0]
-    scale_vec = noise_scale if noise_scale else np.ones(d)
+    if noise_scale is None:
+        scale_vec = np.ones(d)
+    elif np.isscalar(noise_scale):
+        scale_vec = noise_scale * np.ones(d)
+    else:
+        if len(noise_scale) != d:
+            raise ValueError('noise scale must be a scalar or has length d')
+        scale_vec = noise_scale
     X = np.zeros([n, d])
     G = ig.Graph.Adjacency(B.tolist())
     ordered_vertices = G.topological_sorting()
@@ -232,7 +239,7 @@ def simulate_er_dag(degree, nodes_dim, Bernoulli_trial, is_acyclic):
         return np.tril(A_und, k=is_acyclic)
 
     def _graph_to_adjmat(G):
-        return nx.to_numpy_matrix(G)
+        return nx.to_numpy_array(G)
 
     p = float(degree) / (nodes_dim - Bernoulli_trial)
     G_und = nx.generators.erdos_renyi_graph(n=nodes_dim, p=p)
-- 
2.43.0


From a9a7d254e570e277591ce51236c35d99f1227ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 166/171] fix: temporal discovery regressed on the oldest step
 only for every lag

---
 ylearn/causal_discovery/_dydiscovery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_dydiscovery.py b/ylearn/causal_discovery/_dydiscovery.py
index 22fdf71..1f0d7f6 100644
--- a/ylearn/causal_discovery/_dydiscovery.py
+++ b/ylearn/causal_discovery/_dydiscovery.py
@@ -26,7 +26,8 @@ class Dynotears(nn.Module):
     def forward(self, Xlags):
         M = torch.matmul(Xlags[self.k:], self.w_est)
         for k in range(self.k):
-            M += torch.matmul(Xlags[:-self.k], self.p_est[:, :, k])
+            # the first matrix belongs to the oldest of the previous steps
+            M += torch.matmul(Xlags[k:k - self.k], self.p_est[:, :, k])
         return M
 
     def h_func(self):
@@ -197,7 +198,8 @@ class DyGolem(nn.Module):
     def forward(self, Xlags):
         M = torch.matmul(Xlags[self.k:], self.w_est)
         for k in range(self.k):
-            M += torch.matmul(Xlags[:-self.k], self.p_est[:, :, k])
+            # the first matrix belongs to the oldest of the previous steps
+            M += torch.matmul(Xlags[k:k - self.k], self.p_est[:, :, k])
         return M
 
 class DygolemCausalDiscovery(BaseDiscovery):
-- 
2.43.0


From 414a94d07597494caa829c1d4547d9fa6877a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 167/171] fix: Dagma did not centre its data, and the variance
 assumption and regularisation of Golem, Dagma and DyGolem were ignored

---
 ylearn/causal_discovery/_discovery.py   | 10 +++++-----
 ylearn/causal_discovery/_dydiscovery.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 9d53144..8c7f2c3 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -304,6 +304,7 @@ class GolemDiscovery(BaseDiscovery):
         self.device = device
         self.lambdaa = lambdaa
         self.lambdab = lambdab
+        self.equal_variances = equal_variances
         self.random_state = random_state
 
     def _update(self, model, optimizer, X):
@@ -361,7 +362,7 @@ class GolemDiscovery(BaseDiscovery):
 
         logger.info(f'learning data{data.shape} with device={device}, dtype={dtype}, dims={dims}')
 
-        model = Golem(dims=dims, equal_variances=True, lambdaa=self.lambdaa,
+        model = Golem(dims=dims, equal_variances=self.equal_variances, lambdaa=self.lambdaa,
                       lambdab=self.lambdab, dtype=dtype, device=device)
 
         data_t = torch.tensor(data, dtype=dtype, device=device)
@@ -422,9 +423,8 @@ class Dagma(nn.Module):
         self.warm_iter, self.max_iter = 3e4, 6e4
 
     def forward(self, X):
-        self.X = X
-        self.X = -X.mean(axis=0, keepdims=True)
-        self.cov = X.t() @ X / float(self.n)
+        self.X = X - X.mean(axis=0, keepdims=True)
+        self.cov = self.X.t() @ self.X / float(self.n)
         # dif = torch.eye(self.d) - self.w_est
         # rhs = self.cov @ dif
         # loss = 0.5 * torch.trace(dif.t() @ rhs)
@@ -562,7 +562,7 @@ class DagmaDiscovery(BaseDiscovery):
 
         logger.info(f'learning data{data.shape} with device={device}, dtype={dtype}, dims={dims}')
 
-        model = Dagma(dims, dtype=dtype, device=device)
+        model = Dagma(dims, lambdaa=self.lambdaa, dtype=dtype, device=device)
         data_t = torch.tensor(data, dtype=dtype, device=device)
 
         epoch = (T - 1) * warm_iter + max_iter
diff --git a/ylearn/causal_discovery/_dydiscovery.py b/ylearn/causal_discovery/_dydiscovery.py
index 1f0d7f6..9cf1399 100644
--- a/ylearn/causal_discovery/_dydiscovery.py
+++ b/ylearn/causal_discovery/_dydiscovery.py
@@ -223,7 +223,7 @@ class DygolemCausalDiscovery(BaseDiscovery):
             )
         else:
             return 0.5 * torch.sum(torch.log(
-                torch.sum((output - target) ** 2)
+                torch.sum((output - target) ** 2, dim=(0, 1))
             ))
 
     def train(self, model, optimizer, X, order):
-- 
2.43.0


From c59e724605bf62dfcf1e2566cbbe0c20f7af7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 168/171] fix: diverged NOTEARS weights were returned as a
 graph, and Dagma changed its own settings while learning

---
 ylearn/causal_discovery/_discovery.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 8c7f2c3..eac3fc1 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -145,7 +145,14 @@ class CausalDiscovery(BaseDiscovery):
                 primal_obj.backward()
                 return primal_obj
 
+            finite = {k: v.clone() for k, v in model.state_dict().items()}
             optimizer.step(closure)
+            if model.is_weight_nan():
+                # the line search diverged, keep the last weights which are numbers
+                if h_new is None and np.isinf(h):
+                    raise ValueError('Failed to learn from the data, weights are not finite after the first step.')
+                model.load_state_dict(finite)
+                return self.rho_max, alpha, model.h_func().item()
             with torch.no_grad():
                 h_new = model.h_func().item()
             if h_new > 0.5 * h:
@@ -516,11 +523,11 @@ class DagmaDiscovery(BaseDiscovery):
     def train(self, model, X, pbar):
         self.cov = model(X)
         mu = self.mu_init
-        if type(self.s) == list:
-            if len(self.s) < self.T:
-                self.s = self.s + (self.T - len(self.s)) * [self.s[-1]]
-        elif type(self.s) in [int, float]:
-            self.s = self.T * [self.s]
+        s = self.s
+        if type(s) == list:
+            s = s + (self.T - len(s)) * [s[-1]]
+        elif type(s) in [int, float]:
+            s = self.T * [s]
         else:
             ValueError("s should be a list, int, or float.")
         for i in range(int(self.T)):
@@ -529,10 +536,10 @@ class DagmaDiscovery(BaseDiscovery):
 
             while success is False:
                 W_temp, success = model.minimize(self.cov, mu, inner_iters,
-                                                 lr=lr_adam, s=self.s[i], pbar=pbar)
+                                                 lr=lr_adam, s=s[i], pbar=pbar)
                 if success is False:
                     lr_adam *= 0.5
-                    self.s[i] += 0.1
+                    s[i] += 0.1
             self.w_est = W_temp
             mu *= self.mu_factor
         return self.w_est
-- 
2.43.0


From 12091f6edd4ff95913e420b70db34266430ccd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:01 +0000
Subject: [PATCH 169/171] fix: CausalModel.estimate() uses the adjustment set
 of the treatment and outcome it is asked about, and accepts sets of names

---
 ylearn/causal_model/model.py | 48 ++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 8005fdf..3bb3b5f 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -403,28 +403,31 @@ class CausalModel:
         # assert self.outcome is not None
         # assert self.treatment is not None
 
-        outcome = self.outcome if outcome is None else outcome
-        treatment = self.treatment if treatment is None else treatment
+        outcome = self._as_list(self.outcome if outcome is None else outcome)
+        treatment = self._as_list(self.treatment if treatment is None else treatment)
+        adjustment, covariate = self._as_list(adjustment), self._as_list(covariate)
 
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
-            if self._adjustment_set is None:
-                adjustment = self.get_backdoor_set(
-                    self.treatment, self.outcome, "simple"
-                )[0]
+            if self._adjustment_set is None or self._adjustment_for != (
+                set(treatment),
+                set(outcome),
+            ):
+                result = self.get_backdoor_set(treatment, outcome, "simple")
+                if result is None:
+                    raise IdentificationError(
+                        "No set can satisfy the backdoor criterion."
+                    )
+                adjustment = result[0]
             else:
-                adjustment = self._adjustment_set[0]
+                adjustment = self._as_list(self._adjustment_set[0])
         else:
-            if adjustment is not None and covariate is not None:
-                temp_set = set(adjustment).union(set(covariate))
-            else:
-                temp_set = [set(x) for x in [adjustment, covariate] if x is not None]
-                temp_set = temp_set.pop()
+            temp_set = set(adjustment or []).union(covariate or [])
 
-            assert self.is_valid_backdoor_set(
-                temp_set, self.treatment, self.outcome
-            ), "The adjustment set should be a valid backdoor adjustment set,"
-            f"but was given {temp_set}."
+            assert self.is_valid_backdoor_set(temp_set, treatment, outcome), (
+                "The adjustment set should be a valid backdoor adjustment set,"
+                f"but was given {temp_set}."
+            )
 
         # fit the estimator_model if it is not fitted
         if not estimator_model._is_fitted:
@@ -432,8 +435,8 @@ class CausalModel:
                 data=data,
                 outcome=outcome,
                 treatment=treatment,
-                covariate=covariate,
-                adjustment=adjustment,
+                covariate=covariate or None,
+                adjustment=adjustment or None,
                 **kwargs,
             )
 
@@ -441,6 +444,14 @@ class CausalModel:
 
         return effect
 
+    @staticmethod
+    def _as_list(names):
+        if isinstance(names, str):
+            return [names]
+        if isinstance(names, (set, frozenset)):
+            return sorted(names)
+        return names and list(names)
+
     def identify_estimate(
         self,
         data,
@@ -705,6 +716,7 @@ class CausalModel:
             if any((adjust == "all", adjust == "minimal")):
                 backdoor_list = backdoor_set_list
                 self._adjustment_set = backdoor_set_list
+                self._adjustment_for = (treatment, outcome)
             else:
                 raise IdentificationError(
                     "Do not support backdoor set styles other than simple, all"
-- 
2.43.0


From f7b0b0c791141d8ef2c82a6cd81d5675124eab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:01 +0000
Subject: [PATCH 170/171] fix: CausalModel.identify_estimate() fits and
 estimates once per backdoor set

---
 ylearn/causal_model/model.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 3bb3b5f..9344fea 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -520,8 +520,14 @@ class CausalModel:
 
         if isinstance(identify_method, (list, tuple)):
             identify_method = identify_method[1]
+        if identify_method == "auto":
+            identify_method = "all"
 
-        adj_set = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        result = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        if result is None:
+            raise IdentificationError("No set can satisfy the backdoor criterion.")
+        # the first element is one set if it is simple and a list of sets otherwise
+        adj_set = [result[0]] if identify_method == "simple" else result[0]
 
         self._est_result_dict = defaultdict(list)
 
@@ -530,15 +536,15 @@ class CausalModel:
 
             est_model.fit(
                 data=data,
-                outcome=outcome,
-                treatment=treatment,
-                covariate=sub_adj_set,
+                outcome=self._as_list(outcome),
+                treatment=self._as_list(treatment),
+                covariate=self._as_list(sub_adj_set) or None,
                 **kwargs,
             )
 
             self._est_result_dict["est_models"].append(est_model)
 
-            effect = estimator_model.estimate(data=data, quantity=quantity)
+            effect = est_model.estimate(data=data, quantity=quantity)
             self._est_result_dict["effects"].append(effect)
 
         return self._est_result_dict
-- 
2.43.0


From b537dd13907575580f9ef4c6bdbeff4206ed6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:11 +0000
Subject: [PATCH 171/171] fix: an identifier given to Why kept the causal
 matrix of other data

---
 ylearn/api/_why.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index edad651..0d42464 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1,6 +1,6 @@
 import inspect
 import math
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import partial
 from itertools import product
 
@@ -432,7 +432,8 @@ class Why:
 
     def _create_identifier(self):
         if isinstance(self.identifier, Identifier):
-            return self.identifier
+            # a copy, what is discovered in this data is not kept in the given object for other data
+            return copy(self.identifier)
         elif callable(self.identifier):
             options = self.identifier_options if self.identifier_options is not None else {}
             return IdentifierWithLearner(self.identifier, random_state=self.random_state, **options)
-- 
2.43.0

