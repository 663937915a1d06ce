From d6e7440d87eebea8fd97e5ac6356c7e4bfc84004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 01/20] fix: keep transition probabilities in double precision
 in Graph

successors()/predecessors() returned probabilities rounded to C float.
---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..ae48d8a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From 72ac5a18fb1bc704fadc08ae708623e2616ba605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 02/20] fix: drop explicitly stored zeros when casting to
 dok_matrix

A stored zero in a sparse transition matrix became an edge of probability 0:
successors listed it, reachability and end components followed it.
---
 switss/utils/casting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/utils/casting.py b/switss/utils/casting.py
index f6653da..a5a72d9 100644
--- a/switss/utils/casting.py
+++ b/switss/utils/casting.py
@@ -15,4 +15,8 @@ def cast_dok_matrix(obj):
         if len(obj.shape) == 1:
             obj = np.array([obj]).T
     
-    return dok_matrix(obj)
\ No newline at end of file
+    res = dok_matrix(obj)
+    # explicitly stored zeros carry no information, but would be mistaken for entries by users of .items()
+    for key in [k for k, v in res.items() if v == 0]:
+        res.pop(key)
+    return res
\ No newline at end of file
-- 
2.43.0


From 19edf4467437d6c90fb760b89e5cb5448d8155bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 03/20] fix: report a wrong row sum as AssertionError

Formatting the message from a 1x1 matrix raised TypeError instead.
---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..e21138a 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -68,7 +68,7 @@ class AbstractMDP(ABC):
 
         """
         # make sure all rows of P sum to one
-        for idx,s in enumerate(self.P.sum(axis=1)):  
+        for idx,s in enumerate(np.asarray(self.P.sum(axis=1)).flatten()):  
             assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s)
         # make sure that all values x are 0<=x<=1
         for (i,j), p in self.P.items():
-- 
2.43.0


From 7c9c2f43574a87eeb4600b78855206f0ee082523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 04/20] fix: report a negative reward as AssertionError

The message referred to an undefined name (NameError).
---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index e21138a..41b1884 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %f is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From 1767238bd75cf7d5c11ebc621c9deb16f857dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 05/20] fix: report a non-square DTMC matrix as AssertionError

Formatting the message with the shape tuple raised TypeError.
---
 switss/model/dtmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..41d5c9d 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -25,7 +25,7 @@ class DTMC(AbstractMDP):
         """
         # transform P into dok_matrix if neccessary
         P =  cast_dok_matrix(P)  
-        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % P.shape
+        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % (P.shape,)
         if index_by_state_action is None:
             index_by_state_action = bidict()
             for i in range(P.shape[0]):
-- 
2.43.0


From 4a2943c257856e9b9d5bb821793ca4d12804d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 06/20] fix: save transition probabilities with full precision

With 6 digits, models with e.g. probabilities 1/3 could not be loaded back.
---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 41d5c9d..e4647c9 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %.17g\n" % (source, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..3fc6e2a 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From e3036e21d87647e7daf2b0d93f983cd9eb03b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 07/20] fix: make strongly_connected_components callable

It called a cdef method of Graph, which is invisible from Python, and always
raised AttributeError.
---
 switss/model/amdp.py   |  2 +-
 switss/utils/graph.pyx | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 41b1884..942d4c7 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -188,7 +188,7 @@ class AbstractMDP(ABC):
         :return: A :math:`N_{S_{\\text{all}}}`-dimensional vector containing the index of the SCC every state belongs to and the number of SCCs.
         :rtype: Tuple[np.ndarray[int],int]
         """        
-        return self.__graph.strongly_connected_components()
+        return self.__graph.sccs()
 
     def maximal_end_components(self):
         """Returns the Maximal End Components (MECs) of this model.
diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index ae48d8a..888d28e 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -173,6 +173,27 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the whole graph. returns a pair (components,count) where components
+    # is a vector containing for each state the index of the component it belongs to, and count is the number of components
+    def sccs(self):
+        cdef TNode* treap = NULL
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef int count = 0
+        cdef int i = 0
+
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+        count = self.strongly_connected_components(treap,sccs)
+
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        for j in range(self.nodecount):
+            ret[j] = sccs[j]-1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, count
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
-- 
2.43.0


From 7fadd2dfac1bb22e035792cf4e8d683e1a5dd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 08/20] fix: MILP.remove_constraint takes the index
 add_constraint returned

PuLP stores the constraint under its name, so removal always raised KeyError.
---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..7458a2e 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -166,10 +166,10 @@ class MILP:
     def remove_constraint(self, constridx):
         """removes a given constraint from the model.
 
-        :param constridx: the name of the constraint
-        :type constridx: str
+        :param constridx: index of the constraint
+        :type constridx: int
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop("c%d" % constridx)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 1078cb6ca1984748df14aefec15b9a5603d32940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 09/20] fix: LP.add_variables passes the domains as one list

As documented it raised TypeError for every count other than one.
---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 7458a2e..25a1177 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -337,7 +337,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 1b6f496317f702e911f71d49b5fa8d2ed861cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 10/20] fix: setting a new objective function replaces the old
 one

Coefficients of variables that do not occur in the new expression were kept.
---
 switss/solver/milp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 25a1177..b9ebf81 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -124,6 +124,8 @@ class MILP:
             self.__set_objective_function = True
             self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
         else:
+            for var in self.__pulpmodel.objective:
+                self.__pulpmodel.objective[var] = 0
             for var,coeff in expression:
                 self.__pulpmodel.objective[self.__variables[var]] = coeff
         
-- 
2.43.0


From 37127ab282fefad739b0a05187539726bd3b1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 11/20] fix: do not hand out the cached right-hand sides of the
 Farkas constraints

A later query with another threshold changed the vector returned earlier.
---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..28ed605 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -512,7 +512,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -523,7 +523,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -547,7 +547,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -557,7 +557,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From ab46a3707429053419c52df1516b50e182222105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 12/20] fix: refuse state-action certificates with negative
 entries

Only nonnegative y-vectors certify a bound; with negative entries false
bounds on MDPs were accepted.
---
 switss/certification/certificates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..a443d02 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,10 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    # certificates over state-action pairs need to be nonnegative
+    if (mode == "min") == (sense in ["<=","<"]) and (farkas_vec < -tol).any():
+        return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From 3d4ad0f968a3fa359db868aa53f88f8f9be33a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 13/20] fix: force the right variables to zero for min/<=
 certificates

The variables are indexed by state-action pairs, not by states.
---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index a443d02..2d325c4 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -166,7 +166,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From 7a4c1db1c710929952b262ffcad3c5aa249db643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 14/20] fix: keep action labels of subsystems

The mapping from labels to state-action pairs was built the wrong way around.
---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..b353fdc 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From 4eb08ca92b634967ed7d1bc4b616bdfb2ca49497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 15/20] fix: rounding errors are not transitions to the fail
 state

Row sums are only exact up to 9 digits. A residue below that made subsystems
fail to construct (negative probability) and reward forms be rejected because
of a reachable fail state.
---
 switss/model/reachability_form.py | 2 +-
 switss/problem/subsystem.py       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 28ed605..0ab575c 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -417,7 +417,7 @@ class ReachabilityForm:
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
             p_fail = 1 - (p_target + not_to_fail[idx])
-            if p_fail > 0:
+            if np.round(p_fail,9) > 0:
                 P_compl[idx, fail_state] = p_fail
 
         P_compl[C, target_state] = 1
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index b353fdc..c9ec870 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -154,7 +154,9 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+                p_fail = 1 - (p_target + not_to_fail[new_row_idx])
+                if np.round(p_fail,9) > 0:
+                    new_P[new_row_idx, fail_state] = p_fail
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 540056b3db29225db2b4a06f049efe8c40eabd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 16/20] fix: give RewardReachabilityForm its
 index_by_state_action

Exact minimisation of max-properties needs it and raised AttributeError.
---
 switss/model/reward_reachability_form.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..db311cc 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -34,6 +34,10 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def index_by_state_action(self):
+        return self.__index_by_state_action
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From 70dbd7dc96fc585ef87b09f527d77b5eb0cf5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 17/20] fix: label the right states of choice models imported
 from stormpy

The labels of each choice went to the state of the next choice.
---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 3fc6e2a..2d58259 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 4cd4bc3040e8d92a4b5d2aa160a35dfa7391678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 18/20] fix: DTMC.from_stormpy works and keeps the state labels

from_stormpy passes choice_model, which the DTMC version did not accept, and
the labels of the stormpy model were dropped.
---
 switss/model/dtmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index e4647c9..b88331b 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,6 +1,7 @@
 from bidict import bidict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
+from collections import defaultdict
 
 from . import AbstractMDP
 from ..utils import color_from_hash, cast_dok_matrix, DTMCVisualizationConfig
@@ -141,20 +142,25 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model, choice_model = False):
         
         #assert stormpy_model.model_type == "ModelType.MDP"
+        assert not choice_model, "choice models can only be built as MDPs"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+
+            for slabel in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[slabel].add(sid)
+
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From d7e073000bbfae1f486fcb43932ae83c5f5359b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 19/20] fix: no rounding errors in certificates of exact
 minimisation

---
 switss/problem/milpexact.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..6b0c05b 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -54,7 +54,7 @@ class MILPExact(ProblemFormulation):
         }
 
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
-        model, _ = construct_MILP(reach_form, 
+        model, indicators = construct_MILP(reach_form, 
                                   threshold, 
                                   mode=mode, 
                                   labels=labels, 
@@ -70,6 +70,10 @@ class MILPExact(ProblemFormulation):
                 yield ProblemResult(result.status, None, None, None)
             else:
                 certsize = certificate_size(reach_form, mode)
-                certificate = result.result_vector[:certsize]
+                certificate = result.result_vector[:certsize].copy()
+                # variables of groups that are switched off may carry rounding errors
+                for indicator, group in indicators.items():
+                    if result.result_vector[indicator] < 0.5:
+                        certificate[list(group)] = 0
                 witness = Subsystem(reach_form, certificate, mode)
                 yield ProblemResult("success", witness, result.value, certificate)
-- 
2.43.0


From 20761e4036896351ccf729cc0ad4b58894b0b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 20/20] fix: keep the bounds given for binary variables

---
 switss/solver/milp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9ebf81..5922de2 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -192,7 +192,11 @@ class MILP:
         for (domain,lb,ub) in var_descr:
             assert domain in ["integer", "real", "binary"]
 
-            cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
+            # pulp ignores the bounds of binary variables, thus they are added as integers between 0 and 1.
+            cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpInteger }[domain]
+            if domain == "binary":
+                lb = 0 if lb is None else max(lb,0)
+                ub = 1 if ub is None else min(ub,1)
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
             self.__variables.append(var)
-- 
2.43.0

