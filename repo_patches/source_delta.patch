From 553be3a12f416b8ca9e28b734bd944d20025f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 01/57] fix: scalar operands of factor arithmetic work on
 either side and for numpy scalars

---
 bcause/factors/mulitnomial.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..2dd1a7b 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -4,6 +4,7 @@ import logging
 import math
 from collections import OrderedDict
 from functools import reduce
+from numbers import Number
 from typing import Dict, List, Iterable, Union, Hashable
 
 import numpy as np
@@ -77,7 +78,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
-        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
+        if isinstance(f, Number): f = self.builder(domain=dict(), values=[f])
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
@@ -169,25 +170,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From 43ae8229ad05538777388b17ee6c97364ef4ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 02/57] fix: 0/0 is 0 when dividing factors in every data
 store, as in the numpy store

---
 bcause/factors/values/listops.py     | 4 ++--
 bcause/factors/values/operations.py  | 8 +++++++-
 bcause/factors/values/treedictops.py | 4 ++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/values/listops.py b/bcause/factors/values/listops.py
index e6e4c3a..f9ab656 100644
--- a/bcause/factors/values/listops.py
+++ b/bcause/factors/values/listops.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 import bcause.util.domainutils as dutil
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, zero_safe_divide
 
 
 if TYPE_CHECKING:
@@ -63,7 +63,7 @@ class  ListStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'ListStore', other: 'ListStore') -> 'ListStore':
-        return  ListStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return  ListStoreOperations._generic_combine(store, other, zero_safe_divide)
 
     @staticmethod
     def restrict(store : 'ListStore', observation:dict) -> 'ListStore':
diff --git a/bcause/factors/values/operations.py b/bcause/factors/values/operations.py
index 3f5dff1..f4ec265 100644
--- a/bcause/factors/values/operations.py
+++ b/bcause/factors/values/operations.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
+import numpy as np
 
 import bcause.util.domainutils as dutil
 
@@ -12,6 +13,11 @@ import bcause.util.domainutils as dutil
 if TYPE_CHECKING:
     from bcause.factors.values import DataStore, ListStore, NumpyStore
 
+def zero_safe_divide(x, y):
+    # division with the same convention in all the stores: 0/0 = 0
+    return np.nan_to_num(np.divide(x, y))
+
+
 class OperationSet(ABC):
 
     @staticmethod
@@ -93,7 +99,7 @@ class GenericOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'DataStore', other: 'DataStore') -> 'DataStore':
-        return GenericOperations._generic_combine(store, other, lambda x, y: x / y)
+        return GenericOperations._generic_combine(store, other, zero_safe_divide)
 
     @staticmethod
     def restrict(store : 'DataStore', observarion:dict) -> 'DataStore':
diff --git a/bcause/factors/values/treedictops.py b/bcause/factors/values/treedictops.py
index f446bab..9997cf4 100644
--- a/bcause/factors/values/treedictops.py
+++ b/bcause/factors/values/treedictops.py
@@ -4,7 +4,7 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, zero_safe_divide
 from bcause.util.treesutil import build_default_tree, treeNode
 
 if TYPE_CHECKING:
@@ -102,7 +102,7 @@ class TreeDictStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'TreeDictStore', other: 'TreeDictStore') -> 'TreeDictStore':
-        return TreeDictStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return TreeDictStoreOperations._generic_combine(store, other, zero_safe_divide)
 
 
     @staticmethod
-- 
2.43.0


From 3ea1e57bf494ed0b3cb875112c82962befb2f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 03/57] fix: restricting a numpy store to several states keeps
 the domain order and every axis in place

---
 bcause/factors/values/numpyops.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..ee982fa 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -101,6 +101,7 @@ class NumpyStoreOperations(OperationSet):
     @staticmethod
     def restrict(store : 'NumpyStore', observation:dict) -> 'NumpyStore':
         items = []
+        extended = dict()
         new_dom = OrderedDict()
         for v in store.variables:
             if v in observation.keys():
@@ -109,15 +110,17 @@ class NumpyStoreOperations(OperationSet):
                     obs_v = obs_v[0]
 
                 if not isinstance(obs_v, list):
-                    idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
-                    items.append(idx)
+                    items.append(store.domain[v].index(obs_v))
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
-                    new_dom[v] = [x for x in store.domain[v] if x in obs_v]
+                    idx = sorted({store.domain[v].index(x) for x in obs_v})
+                    items.append(slice(None))
+                    extended[len(new_dom)] = idx
+                    new_dom[v] = [store.domain[v][i] for i in idx]
             else:
                 items.append(slice(None))
                 new_dom[v] = store.domain[v]
         new_data = store._data[tuple(items)].copy()
+        for axis, idx in extended.items():
+            new_data = np.take(new_data, idx, axis=axis)
         return store.builder(domain=new_dom, data=new_data)
 
-- 
2.43.0


From 2ac45ad865c622afd996848181d5d7080b121651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 04/57] fix: numpy stores are combined by state, also when a
 common variable lists its states in another order

---
 bcause/factors/values/numpyops.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index ee982fa..365ebb9 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -35,6 +35,9 @@ class NumpyStoreOperations(OperationSet):
 
         new_domain = OrderedDict({**op1.domain, **op2.domain})
 
+        # Set the same state order in the common variables
+        op1 = NumpyStoreOperations._reorder_states(op1, new_domain)
+
         # Extend domains if needed
         if len(op1.variables) < len(new_domain):
             op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
@@ -69,6 +72,21 @@ class NumpyStoreOperations(OperationSet):
         # create new object
         return store.builder(data = new_data, domain = new_dom)
 
+    @staticmethod
+    def _reorder_states(store, domain) -> 'NumpyStore':
+        if all(d == domain[v] for v, d in store.domain.items()):
+            return store
+
+        new_data = store.data
+        for axis, (v, d) in enumerate(store.domain.items()):
+            if d != domain[v]:
+                if set(d) != set(domain[v]):
+                    raise ValueError(f"Combination with different domains for {v}")
+                new_data = np.take(new_data, [d.index(s) for s in domain[v]], axis=axis)
+        new_dom = OrderedDict([(v, domain[v]) for v in store.variables])
+
+        return store.builder(data=new_data, domain=new_dom)
+
     @staticmethod
     def _extend_domain(store, **extra_dom) -> 'NumpyStore':
 
-- 
2.43.0


From 7d141ea808d7c6ebb1fb3b25368d1c83ecf27e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 05/57] fix: states that are tuples are found by equality in
 every data store

---
 bcause/factors/values/numpystore.py | 3 +--
 bcause/util/domainutils.py          | 2 +-
 bcause/util/treesutil.py            | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index bf66303..ab2ad14 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -41,8 +41,7 @@ class NumpyStore(DiscreteStore):
     def set_value(self, value, observation):
         items = []
         for v in self.variables:
-            idx = np.where(np.array(self.domain[v]) == observation[v])[0][0]
-            items.append(idx)
+            items.append(self.domain[v].index(observation[v]))
         self._data[tuple(items)] = value
 
     def get_value(self, **observation):
diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d8e7039..34eabb5 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -44,7 +44,7 @@ def restrict_domain(domain, observation):
 
 
 def values_to_coord(domain, observation):
-    return {v:np.where(np.array(domain[v]) == s)[0][0] for v,s in observation.items() if v in domain}
+    return {v:domain[v].index(s) for v,s in observation.items() if v in domain}
 
 
 def to_numeric_domains(domain):
diff --git a/bcause/util/treesutil.py b/bcause/util/treesutil.py
index d965ded..9fc3b83 100644
--- a/bcause/util/treesutil.py
+++ b/bcause/util/treesutil.py
@@ -26,7 +26,7 @@ def build_default_tree(dom, data):
 
     var = variables[0]
     if len(variables)==1:
-        return treeNode(var = var,  children = dict(zip(np.ravel(list(dom.values())), np.ravel(data))))
+        return treeNode(var = var,  children = dict(zip(dom[var], np.ravel(data))))
 
     inner_dom =  {v:s for v,s in dom.items() if v != var}
     inner_size = reduce(lambda x,y: x*y, [len(s) for s in inner_dom.values()])
-- 
2.43.0


From 15b06486c7a1e19fa81c2fee0fffc5cf284a0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 06/57] fix: nodes without arcs are kept when fusing models
 (counterfactual with an intervened leaf)

---
 bcause/models/transform/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..002bf18 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -18,6 +18,7 @@ def fusion_roots(models, on, **builder_kargs):
     new_factors = models[0].get_factors(*on)
     for m in models:
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
+        new_dag.add_nodes_from(m.variables)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
     return models[0].builder(dag=new_dag, factors=new_factors, **builder_kargs)
-- 
2.43.0


From af86e96a328aebf600a9adf8785d1b19cab86d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 07/57] fix: nodes without arcs are kept when a DAG is given as
 a string

---
 bcause/util/graphutils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..f019edb 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -20,15 +20,18 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 
 def str2dag(str_dag: str) -> nx.DiGraph:
-    arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    arcs, nodes = [], []
     for s in str_dag[1:-1].split("]["):
         if "|" in s:
             x, right_vars = s.split("|")
             for y in right_vars.split(":"):
                 arcs.append((y, x))
+        else:
+            nodes.append(s)
 
-    return nx.DiGraph(arcs)
+    dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(nodes)
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From 44fe89c913766ade111361cd9bbaf0d9acfc71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 08/57] fix: a structural causal model can be built from a DAG
 given as a string

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..a9cf8eb 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -148,7 +148,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From a3260851e978c9e36d761eca67b4c94905d855d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 09/57] fix: casting a model to multinomial keeps its
 endogenous variables

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index a9cf8eb..0ac7179 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From bbb79be4f28bf0e428345e688e3ffb3535bbf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 10/57] fix: renaming only some of the variables of a
 structural causal model

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0ac7179..b1c0f8d 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -201,7 +201,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From a8185d9390bc8b854063b1364ed575c1438bf23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 11/57] fix: submodels can be built, and only declare as
 endogenous the variables they contain

---
 bcause/models/cmodel.py  | 2 +-
 bcause/models/pgmodel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index b1c0f8d..1800c64 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -157,7 +157,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs: kwargs["endogenous"] = [v for v in self.endogenous if v in kwargs["dag"]]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..747469a 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -180,7 +180,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From f1743ae13a831fd0c7e8e90d78bf0b7ba3deed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 12/57] fix: sampling the endogenous variables as a list of
 dictionaries

---
 bcause/models/cmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 1800c64..b0724a9 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -247,7 +247,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        return data if as_pandas else data.to_dict("records")
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0


From 1bb0e793fd0bd203c3c5fe34b388375321a12cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 13/57] fix: variables without exogenous arcs belong to a
 c-component of their own

---
 bcause/models/cmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index b0724a9..cbd4fbc 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -75,7 +75,9 @@ class DiscreteCausalDAGModel(DiscreteDAGModel):
         :return: object of class nx.DiGraph
         '''
         exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]
-        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g = DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g.add_nodes_from(self.variables)
+        return g
 
     @property
     def ccomponents(self):
-- 
2.43.0


From c549b907e0b69b18e4a8678fc0d8e67c4c8e4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 14/57] fix: the graph of the q-decomposition is acyclic when
 c-components are interleaved

---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From 4d75b6f2ed03b57f142f4512f75568e9eaa26746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 15/57] fix: the domain of a variable is checked against the
 factors of its children

---
 bcause/models/pgmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 747469a..a9eb15e 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -64,6 +64,9 @@ class PGModel(ABC):
             for v in f.variables:
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+            for ch in self.get_children(var):
+                if self._factors[ch] is not None and set(self._factors[ch].domain[var]) != set(f.domain[var]):
+                    raise ValueError(f"Inconsistent domain for {var} in the factor of {ch}")
 
         # Update domains
         if var not in self._domains or self._domains[var] == None:
-- 
2.43.0


From 563bc29432b3171fbca6776316a7c127c444c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 16/57] fix: the domain of a single variable does not include
 those of variables named as a substring of it

---
 bcause/models/pgmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index a9eb15e..0d080ee 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -13,6 +13,7 @@ from networkx import relabel_nodes
 
 import bcause.factors.factor as bf
 import bcause.util.graphutils as gutils
+from bcause.util.arrayutils import as_lists
 
 from bcause.models.sampling import forward_sampling
 
@@ -141,9 +142,11 @@ class DiscreteDAGModel(PGModel):
 
 
     def get_domains(self, variables):
+        variables = as_lists(variables)
         return {v:d for v,d in self._domains.items() if v in variables}
 
     def get_varsizes(self, variables):
+        variables = as_lists(variables)
         return {v:len(d) for v,d in self._domains.items() if v in variables}
 
 
-- 
2.43.0


From 1187f0cdc69ca00b48d47039d77f967aaec94a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 17/57] fix: a left or right variable given as a string does
 not match variables named as a substring of it

---
 bcause/factors/factor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index e7cc9aa..b54263c 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -8,6 +8,7 @@ from typing import Dict, List
 import numpy as np
 
 from bcause.factors.values.store import DataStore
+from bcause.util.arrayutils import as_lists
 from bcause.util.domainutils import assingment_space
 
 
@@ -143,6 +144,9 @@ class ConditionalFactor(Factor):
         return {v:s for v,s in self.domain.items() if v in self.left_vars}
 
     def set_variables(self, variables, left_vars, right_vars):
+        if left_vars is not None: left_vars = as_lists(left_vars)
+        if right_vars is not None: right_vars = as_lists(right_vars)
+
         if left_vars is None and right_vars is None:
             # all the variables are in the left side
             left_vars, right_vars = variables, []
-- 
2.43.0


From c6926899f7784e5f23b73e8e8018b7ba75e8d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 18/57] fix: compiling a probabilistic query without evidence

---
 bcause/inference/probabilistic/datainference.py | 2 +-
 bcause/inference/probabilistic/probabilistic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..d34df10 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -18,7 +18,7 @@ class LaplaceInference(ProbabilisticInference):
         super(self.__class__, self).__init__(data)
     def compile(self, target, evidence=None) -> Inference:
 
-        target = as_lists(target)
+        target, evidence = as_lists(target), evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..3797f0c 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -17,7 +17,7 @@ class ProbabilisticInference(Inference):
 
     def compile(self, target, evidence=None) -> Inference:
 
-        target = as_lists(target)
+        target, evidence = as_lists(target), evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
-- 
2.43.0


From abc6ab1124af44a801e71f564260ffcdcad6e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 19/57] fix: elimination heuristics do not empty the list of
 variables they are given

---
 bcause/inference/ordering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 04a6999..537a466 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -38,6 +38,7 @@ def _get_elim_ordering(dag, varsizes=None, to_remove=None, heuristic=Heuristic.M
             moral.nodes[v]["size"] = varsizes[v]
 
     ordering = []
+    to_remove = list(to_remove)
 
     while len(to_remove)>0:
         # compute costs
-- 
2.43.0


From 9d49001504f1a207ff4f7610b5eb4a9e413222b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 20/57] fix: heuristics that only take the arguments that
 variable elimination asks for are accepted

---
 bcause/inference/probabilistic/elimination.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/probabilistic/elimination.py b/bcause/inference/probabilistic/elimination.py
index 477285d..a340c16 100644
--- a/bcause/inference/probabilistic/elimination.py
+++ b/bcause/inference/probabilistic/elimination.py
@@ -24,11 +24,13 @@ class VariableElimination(ProbabilisticInference):
         if isinstance(heuristic, Heuristic):
             heuristic = heuristic_functions[heuristic.name]
 
-        hargs = inspect.getfullargspec(heuristic).args
+        hspec = inspect.getfullargspec(heuristic)
+        hargs = hspec.args
         if "dag" not in hargs or "to_remove" not in hargs:
             raise ValueError("Input heuristic function must have arguments called 'dag' and 'to_remove'")
 
         self._heuristic = heuristic
+        self._heuristic_varsizes = "varsizes" in hargs + hspec.kwonlyargs or hspec.varkw is not None
 
         super(self.__class__, self).__init__(model)
 
@@ -51,8 +53,8 @@ class VariableElimination(ProbabilisticInference):
 
         #to_remove = [v for v in self.inference_model.variables if v not in self._target and v not in self._evidence.keys()]
         #to_remove = [v for v in to_remove if v in self._inference_model.graph.nodes]
-        ordering = self._heuristic(self._inference_model.graph, to_remove=to_remove,
-                                   varsizes=self._inference_model.varsizes)
+        hkwargs = dict(varsizes=self._inference_model.varsizes) if self._heuristic_varsizes else dict()
+        ordering = self._heuristic(dag=self._inference_model.graph, to_remove=to_remove, **hkwargs)
 
         logging.info(f"Starting Variable elimination loop. Ordering: {ordering}")
         logging.debug(f"Current factor list: {[f.name for f in factors]}")
-- 
2.43.0


From dde2af3316f5f85abe78a096e75d42b8b495f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 21/57] fix: probabilities of causation can be the first query
 of a multi-model engine

---
 bcause/inference/causal/multi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..ddb1f10 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -23,6 +23,11 @@ class CausalMultiInference(CausalInference):
         self._causal_inf_fn = causal_inf_fn
 
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     @property
     def models(self) -> list[StructuralCausalModel]:
         return self._models
-- 
2.43.0


From 5a50e8443998eb2fd8020e1fb76dc0deb5972b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 22/57] fix: canonical equations with none or several
 endogenous parents

---
 bcause/factors/deterministic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..a7b22bf 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -131,6 +131,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_endo_vars = right_endo_vars or []
 
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
@@ -141,7 +142,7 @@ def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=
     domEndoPa = dutils.assingment_space(dutils.subdomain(domain, *right_endo_vars))
     m = len(domEndoPa)
 
-    new_values = list(product(*[domain[left_var]] * m))
+    new_values = [s for states in product(*[domain[left_var]] * m) for s in states]
     new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}
 
     return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)
-- 
2.43.0


From d5e1800d0c962b70c000819b20506f6022cd5a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 23/57] fix: building an equation from a data frame leaves it
 unmodified and works for any position of the left variable

---
 bcause/factors/deterministic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index a7b22bf..ecd3263 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -44,11 +44,13 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_data_frame(df, domains, left_var=None):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
+        df = df.copy()
 
         for v in columns:
             df[v] = pd.Categorical(df[v], domains[v])
 
-        df = df.sort_values(by=columns)
+        if len(columns) > 1:
+            df = df.sort_values(by=[v for v in columns if v != left_var])
 
         domf = dutils.subdomain(domains, *columns)
         values = list(df[left_var].values)
-- 
2.43.0


From 4faac83f2f21ee460cdc7395fefe13d6353e3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 24/57] fix: true and false are identified in boolean domains

---
 bcause/util/domainutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index 34eabb5..ba66b7c 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -100,7 +100,7 @@ def identify_true_false(varname, dom):
     if len(set(dtypes))>1: raise ValueError("Cannot identify true/false states: different data types")
 
     tf = []
-    if dtypes[0] in [int, float]:
+    if dtypes[0] in [int, float, bool]:
         tf = [d for d in dom if d==True] + [d for d in dom if d==False]
     elif dtypes[0] == str:
         tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
-- 
2.43.0


From 6fbb0d4d519e41b49471b0ab148c243c833063a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 25/57] fix: random degenerate factors without conditioning
 variables

---
 bcause/factors/mulitnomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 2dd1a7b..c595e27 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -236,6 +236,7 @@ def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):
 
 def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_vars = right_vars or []
     data = np.zeros([len(d) for d in dom.values()])
     for idx in [list(s.values()) for s in random_assignment(to_numeric_domains(dom), right_vars)]:
         set_value(1., data, idx)
-- 
2.43.0


From 5f3083db888f67c1c5cdafa573aba474b66ec29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 26/57] fix: numbers in scientific notation are read from UAI
 files

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..badd502 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..b3557ab 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
-- 
2.43.0


From 6dff325d77449040d16a5f457420c57bb457fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 27/57] fix: nodes without arcs are kept when reading and
 converting models

---
 bcause/conversion/pgmpy.py  | 1 +
 bcause/readwrite/bnread.py  | 1 +
 bcause/readwrite/scmread.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..d59dd75 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -51,6 +51,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index badd502..8eab08a 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index b3557ab..c9820d9 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From b9b08cf305224f1428c8bfce8203b88e27a23645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 28/57] fix: equations read from UAI files take states of the
 domain, whichever the first state is

---
 bcause/readwrite/scmread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index c9820d9..7964c84 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -71,7 +71,8 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         if len(list(dag.predecessors(v))) == 0:
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
         else:
-            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            states = [dom[v][int(x)] for x in values]
+            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=states)
 
     from bcause.models.cmodel import StructuralCausalModel
 
-- 
2.43.0


From 4cb374db951668a481f67069c3b31fe9614f49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 29/57] fix: the equation of a degenerate factor maps to
 states, which are written to UAI files by position

---
 bcause/factors/mulitnomial.py | 3 ++-
 bcause/readwrite/bnwrite.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index c595e27..5d891ea 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -46,7 +46,8 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Wrong number of variables on the left")
 
         v = self.left_vars[0]
-        values = self.values_array().argmax(axis=self.variables.index(v))
+        idx = self.values_array().argmax(axis=self.variables.index(v))
+        values = [self.domain[v][i] for i in idx.ravel()]
         from bcause.factors import DeterministicFactor
         return DeterministicFactor(self.domain, left_vars=[v], values=values)
 
diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..08a2cbd 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -6,6 +6,7 @@ from pgmpy.readwrite import BIFWriter, XMLBIFWriter
 
 from bcause.factors import MultinomialFactor, DeterministicFactor
 from bcause.util.assertions import assert_file_exists
+from bcause.util import domainutils as dutils
 
 
 from typing import TYPE_CHECKING
@@ -67,9 +68,9 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
 
         # if not reverse_values:
         #     var_order = var_order[::-1]
-        values = f.values_array(vorder).flatten()
+        values = [f.get_value(**s) for s in dutils.assingment_space(dutils.subdomain(model.domains, *vorder))]
         if v in integer_varlist:
-            values = [int(p) for p in values]
+            values = [model.domains[v].index(s) for s in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
 
     # Write to file
-- 
2.43.0


From 54f4e53c9228a33c2e9df285eae1b34734d74612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 30/57] fix: conditional tables of any shape and variable order
 are converted to pgmpy

---
 bcause/conversion/pgmpy.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index d59dd75..158719f 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -25,13 +25,8 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
-
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    parents = f.right_vars
+    values = f.values_array(parents + [v]).reshape(-1, card[v])
 
     args = dict(
         variable = v,
@@ -40,7 +35,6 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
         state_names = f.domain
     )
 
-    parents = f.right_vars
     if len(parents)>0:
         args["evidence"] = parents
         args["evidence_card"] = [card[p] for p in parents]
-- 
2.43.0


From a6355062460b622d488c4c9839e0942c29fa9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 31/57] fix: learning does not add columns to the data of the
 user

---
 bcause/learning/parameter/expectation_maximization.py | 1 +
 bcause/learning/parameter/gradient.py                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..735b10f 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -79,6 +79,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
+        data = data.copy()
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..e69c20c 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -151,6 +151,7 @@ class GradientLikelihood(IterativeParameterLearning):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
+        data = data.copy()
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-- 
2.43.0


From 64a682975ecdd6fd7d9e44f74a8a2a1895fca467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:14 +0000
Subject: [PATCH 32/57] fix: data stores do not share memory with the values
 they are built from

---
 bcause/factors/values/numpystore.py    | 2 +-
 bcause/factors/values/treedictstore.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index ab2ad14..c16e84d 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -62,7 +62,7 @@ class Numpy1DStore(DiscreteStore):
         self.builder = builder
         #self.set_operationSet(ListStoreOperations)
         self.set_operationSet(GenericOperations)
-        super(self.__class__, self).__init__(domain=domain, data=np.ravel(data))
+        super(self.__class__, self).__init__(domain=domain, data=np.array(data).ravel())
 
     @staticmethod
     def _check_consistency(data, domain):
diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..8c4f066 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -52,8 +52,8 @@ class TreeDictStore(DiscreteStore):
             else:
                 other_obs = {v: s for v, s in observation.items() if v != data["var"]}
                 ch = data["children"][observation[data["var"]]]
-                data["children"][observation[data["var"]]] = modify_dict(ch, other_obs, value)
-                out = data
+                new_ch = {**data["children"], observation[data["var"]]: modify_dict(ch, other_obs, value)}
+                out = treeNode(data["var"], new_ch)
             return out
 
         relevant_obs = {v: s for v, s in observation.items() if v in self.domain}
-- 
2.43.0


From 2a2e295863a79fee910307256e4abebe1bc19a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 33/57] fix: EM counts each incomplete instance once, and only
 for the states it has observed

---
 .../parameter/expectation_maximization.py     | 15 ++++++++----
 bcause/util/datadeps.py                       | 23 +++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 735b10f..2a2b7e7 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -8,6 +8,7 @@ from bcause.inference.probabilistic.elimination import VariableElimination
 from bcause.learning.parameter import IterativeParameterLearning
 from bcause.models.cmodel import StructuralCausalModel
 from bcause.models.pgmodel import DiscreteDAGModel
+from bcause.util import domainutils as dutils
 from bcause.util.datadeps import DataDepAnalysis
 
 
@@ -31,7 +32,6 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def _get_pseudocounts_dict(self) -> dict:
         def get_pcounts(v):
-            from bcause.util import domainutils as dutils
             pa = self.prior_model.get_parents(v)
             dom = dutils.subdomain(self.prior_model.domains, *([v] + pa))
             return MultinomialFactor(dom, values=0)
@@ -48,8 +48,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._converged_vars = set()
 
     def _get_obs_counts(self, target):
-        obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
+        return self._datadeps.get_minimal_obs_counts(target)
 
 
 
@@ -64,11 +63,19 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 hidden = [x for x in relevant if x not in obs]
 
                 #print(f"{hidden} | {obs}")
-                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
+                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if len(hidden) > 0 else c
+                if len(hidden) < len(relevant):
+                    # the counts only correspond to the observed states
+                    exp_counts = self._get_indicator({x: obs[x] for x in relevant if x in obs}) * exp_counts
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
 
+    def _get_indicator(self, obs):
+        dom = {x: self.prior_model.domains[x] for x in obs}
+        values = [float(s == obs) for s in dutils.assingment_space(dom)]
+        return MultinomialFactor(dom, values=values)
+
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
         for v in set(self.trainable_vars).difference(self._converged_vars):
diff --git a/bcause/util/datadeps.py b/bcause/util/datadeps.py
index 375ba6f..64e3e0c 100644
--- a/bcause/util/datadeps.py
+++ b/bcause/util/datadeps.py
@@ -5,6 +5,7 @@ import networkx as nx
 import numpy as np
 import pandas as pd
 
+from collections import Counter
 from functools import cache
 
 import bcause as bc
@@ -17,6 +18,9 @@ class DataDepAnalysis(object):
         self._data = data
         self._dag = dag
         self._data_unique = data.drop_duplicates().to_dict("records")
+        row_key = lambda d: tuple("nan" if pd.isna(x) else (x,) for x in d.values())
+        counter = Counter(map(row_key, data.to_dict("records")))
+        self._data_counts = [counter[row_key(d)] for d in self._data_unique]
 
     def expectation_relevant_vars(self,v):
         return relevat_vars(self._dag,v)
@@ -28,12 +32,21 @@ class DataDepAnalysis(object):
 
     @cache
     def get_minimal_obs_blanket(self, target):
-        def dsep_filter(d):
-            evidence_vars = [v for v in d.keys() if not pd.isna(d[v])]
-            connected_vars = dcon_nodes(self._dag, target, evidence_vars) | {target}
-            return {k: v for k, v in d.items() if k in connected_vars and k in evidence_vars}
+        return self.__obs_unique([self.__dsep_filter(target, d) for d in self._data_unique])
 
-        return self.__obs_unique([dsep_filter(d) for d in self._data_unique])
+    @cache
+    def get_minimal_obs_counts(self, target):
+        # each instance counts for its own minimal observation only
+        counts = [[obs, 0] for obs in self.get_minimal_obs_blanket(target)]
+        for d, n in zip(self._data_unique, self._data_counts):
+            obs_d = self.__dsep_filter(target, d)
+            next(c for c in counts if c[0] == obs_d)[1] += n
+        return [tuple(c) for c in counts]
+
+    def __dsep_filter(self, target, d):
+        evidence_vars = [v for v in d.keys() if not pd.isna(d[v])]
+        connected_vars = dcon_nodes(self._dag, target, evidence_vars) | {target}
+        return {k: v for k, v in d.items() if k in connected_vars and k in evidence_vars}
 
     @staticmethod
     def __obs_unique(obs_list):
-- 
2.43.0


From c248eb53a8ef1d2cb06926ed3f0975f41831c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 34/57] fix: EM and the randomisation of factors keep the data
 store of the factors of the model

---
 bcause/learning/parameter/expectation_maximization.py | 8 ++++----
 bcause/models/cmodel.py                               | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 2a2b7e7..6f8c548 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -34,7 +34,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
         def get_pcounts(v):
             pa = self.prior_model.get_parents(v)
             dom = dutils.subdomain(self.prior_model.domains, *([v] + pa))
-            return MultinomialFactor(dom, values=0)
+            return MultinomialFactor(dom, values=0, vtype=self.prior_model.factors[v].vtype)
 
         return {v: get_pcounts(v) for v in self.trainable_vars}
 
@@ -66,15 +66,15 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 exp_counts = self._inf.query(target=hidden, evidence=obs) * c if len(hidden) > 0 else c
                 if len(hidden) < len(relevant):
                     # the counts only correspond to the observed states
-                    exp_counts = self._get_indicator({x: obs[x] for x in relevant if x in obs}) * exp_counts
+                    exp_counts = self._get_indicator({x: obs[x] for x in relevant if x in obs}, pcounts[v].vtype) * exp_counts
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
 
-    def _get_indicator(self, obs):
+    def _get_indicator(self, obs, vtype):
         dom = {x: self.prior_model.domains[x] for x in obs}
         values = [float(s == obs) for s in dutils.assingment_space(dom)]
-        return MultinomialFactor(dom, values=values)
+        return MultinomialFactor(dom, values=values, vtype=vtype)
 
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index cbd4fbc..671a28c 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -212,7 +212,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         m = self if in_place else self.copy()
         for x in variables:
             dom = dutils.var_parents_domain(m.domains, m.graph, x)
-            f = random_multinomial(dom, [v for v in dom.keys() if x != v], allow_zero=allow_zero)
+            vtype = m.factors[x].vtype if m.factors[x] is not None else None
+            f = random_multinomial(dom, [v for v in dom.keys() if x != v], vtype=vtype, allow_zero=allow_zero)
             m.set_factor(x, f)
         return m
 
-- 
2.43.0


From 2ffabf9c8bd90dd3006c2f28ef34ac59a8cefa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:39 +0000
Subject: [PATCH 35/57] fix: interval factors are built from factors that list
 the same variables in another order

---
 bcause/factors/imprecise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..5b73af8 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -57,7 +57,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_precise(list_factors):
         dom = list_factors[0].domain
         left_vars = list_factors[0].left_vars
-        if not all(list_factors[0].domain == f.domain for f in list_factors):
+        if not all(dict(dom) == dict(f.domain) for f in list_factors):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-- 
2.43.0


From 17255cb001e2c489b6b38cbf41f17b246acd4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 36/57] fix: conditional sampling of observations that list
 their variables in different orders

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 5d891ea..ab28fd5 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -149,7 +149,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[v] for v in df_obs.columns)]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0


From 988e59ac853cd53e4caa68c685e0f4c558f0c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:09 +0000
Subject: [PATCH 37/57] fix: learners start afresh at every run

---
 bcause/learning/parameter/expectation_maximization.py | 6 ++++--
 bcause/learning/parameter/gradient.py                 | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 6f8c548..379a572 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -24,6 +24,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _calculate_updated_factors(self):
@@ -43,7 +44,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def __init__(self, prior_model: DiscreteDAGModel, trainable_vars: list = None,
                  inference_method=VariableElimination):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._inference_method = inference_method
         self._converged_vars = set()
 
@@ -90,7 +91,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()])
+        self._converged_vars = set()
 
         self._datadeps = DataDepAnalysis(self.model.graph, data)
         self._variables = list(data.columns)
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index e69c20c..0128a3d 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -38,12 +38,13 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def __init__(self, prior_model: StructuralCausalModel, trainable_vars: list = None, tol : float = 1e-8):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._tol = tol
 
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
@@ -155,7 +156,7 @@ class GradientLikelihood(IterativeParameterLearning):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()]) 
                                                                                             
 
         for v in self._trainable_vars:
-- 
2.43.0


From a1a868c9567852a22d902bd51d5f19fe10fdb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:09 +0000
Subject: [PATCH 38/57] fix: missing values are counted when counting data

---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index b68b491..3903e62 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -6,13 +6,13 @@ def to_counts(domains, data=None, normalize=False):
     domains = domains.copy()
     if data is not None:
         data = data[list(domains.keys())]
-        dcounts = data.value_counts(dropna=False).to_dict()
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
         data = data.fillna("nan")
+        dcounts = data.value_counts().to_dict()
     else:
         dcounts = dict()
 
-- 
2.43.0


From 3d032f4d3156333463ac931b3f2f1d8a528f5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 39/57] fix: engines keep their own list of models

---
 bcause/inference/causal/multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index ddb1f10..ec4d98f 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -33,7 +33,7 @@ class CausalMultiInference(CausalInference):
         return self._models
 
     def set_models(self, models: list[StructuralCausalModel]):
-        self._models = models or []
+        self._models = list(models or [])
         self._compiled = False
 
     def add_models(self, models: list[StructuralCausalModel]):
-- 
2.43.0


From 848e7db3f759b597b02c56d98cf9f2e97c375ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 40/57] fix: a refused query leaves the compiled query of an
 engine unchanged

---
 bcause/inference/probabilistic/probabilistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 3797f0c..137dec0 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -21,11 +21,11 @@ class ProbabilisticInference(Inference):
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
+        assert_dag_with_nodes(self.model.graph, target | evidence.keys())
 
         self._target = target
         self._evidence = evidence or dict()
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
-        assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
 
         self._inference_model = self._preprocess()
         self._compiled = True;
-- 
2.43.0


From 10aa28e59db3e181d57f9b7acdcf24f906352676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:25 +0000
Subject: [PATCH 41/57] fix: the sides of an interval factor list only its own
 variables

---
 bcause/factors/imprecise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 5b73af8..a1c090a 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -43,7 +43,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 
         self._store = store_dict[vtype](data=values, domain=domain)
-        self.set_variables(list(domain.keys()), left_vars, right_vars)
+        self.set_variables([v for v in domain.keys() if v != "_bound"], left_vars, right_vars)
         self.vtype = vtype
 
         def builder(**kwargs):
-- 
2.43.0


From ba56a3a061335a850576534e4fd5c0728e113ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:25 +0000
Subject: [PATCH 42/57] fix: interval factors are restricted in every storage
 backend

---
 bcause/factors/imprecise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index a1c090a..e7a2344 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -95,8 +95,8 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         new_store = self.store.restrict(**observation)
         new_left_vars = [v for v in new_store.variables if v in self.left_vars]
         new_dom = {v:k for v,k in new_store.domain.items() if not v.startswith("_")}
-        values_low = new_store.restrict(_bound="low").data
-        values_up = new_store.restrict(_bound="up").data
+        values_low = new_store.restrict(_bound="low").values_list
+        values_up = new_store.restrict(_bound="up").values_list
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
     def _prepare_operand(self, f):
-- 
2.43.0


From 0ac1a213ca5a9ce7e5f2f3d375d48414ea252de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:25 +0000
Subject: [PATCH 43/57] fix: the value of an interval factor at an assignment
 is its lower and upper value

---
 bcause/factors/imprecise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index e7a2344..5b8943e 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -89,6 +89,10 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return OrderedDict({v:s for v,s in self.store.domain.items() if not v.startswith("_")})
 
 
+    def get_value(self, **observation) -> tuple:
+        return self.store_low.get_value(**observation), self.store_up.get_value(**observation)
+
+
     # Factor operations
     def restrict(self, **observation) -> IntervalProbFactor:
         if len(set(observation.keys()).intersection(self._variables)) == 0: return self
-- 
2.43.0


From 6814bd7a3cd2e287228b6fdec9bf5318eb8ae6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:46 +0000
Subject: [PATCH 44/57] fix: trees of values whose branches are leaves can be
 restricted and written

---
 bcause/factors/values/treedictstore.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 8c4f066..92c4f8d 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -21,9 +21,10 @@ class TreeDictStore(DiscreteStore):
     def __init__(self, domain: Dict, data: Union[Iterable, int, float, dict]=None):
         #defualt data
         if data is None:
-            data = np.zeros(np.prod([len(d) for d in domain.values()]))
+            data = np.zeros(np.prod([len(d) for d in domain.values()])) if len(domain)>0 else 0.0
         if not isinstance(data, dict):
-            if len(domain)>0 and type(data) not in [dict, OrderedDict]:
+            # a scalar is a tree with a single leaf
+            if len(domain)>0 and not np.isscalar(data):
                 data = build_default_tree(domain, data)
         def builder(**kwargs):
             return TreeDictStore(**kwargs)
@@ -41,12 +42,19 @@ class TreeDictStore(DiscreteStore):
 
     def set_value(self, value, observation):
         def modify_dict(data, observation, value):
-            if not isinstance(data, dict) or len(observation) == 0:
+            if len(observation) == 0:
                 out = value
+            elif not isinstance(data, dict):
+                # a leaf covering several configurations is expanded
+                var, state = next(iter(observation.items()))
+                other_obs = {v: s for v, s in observation.items() if v != var}
+                new_ch = {s: data for s in self.domain[var]}
+                new_ch[state] = modify_dict(data, other_obs, value)
+                out = treeNode(var, new_ch)
             elif data["var"] not in observation:
                 new_ch = dict()
                 for state, ch in data["children"].items():
-                    new_ch[state] = value if not isinstance(ch, dict) else modify_dict(ch, observation, value)
+                    new_ch[state] = modify_dict(ch, observation, value)
                 out = treeNode(data["var"], new_ch)
 
             else:
-- 
2.43.0


From 6d25271efbb8455147435f6623154101705e89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:50 +0000
Subject: [PATCH 45/57] fix: fusing models on variables that are not roots is
 refused

---
 bcause/models/transform/combination.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 002bf18..2cd3dfb 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -1,13 +1,12 @@
-from itertools import starmap
+from itertools import product, starmap
 
 import networkx as nx
 
 
 def fusion_roots(models, on, **builder_kargs):
-    is_root = lambda x ,m : len(list(m.graph.predecessors(x))) ==0
+    is_root = lambda x ,m : x not in m.graph or len(list(m.graph.predecessors(x))) ==0
 
-    #todo: review this
-    if not all(starmap(is_root, zip(on ,models))):
+    if not all(starmap(is_root, product(on ,models))):
         raise ValueError("Common nodes when fusion must all be root")
 
     if len(set([type(m) for m in models]))!=1:
-- 
2.43.0


From 276fa777f33ef49cde046a44fed05a0d4cf53e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 46/57] fix: casting a factor to a deterministic one keeps its
 storage backend

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ab28fd5..2a3b6ad 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -49,7 +49,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         idx = self.values_array().argmax(axis=self.variables.index(v))
         values = [self.domain[v][i] for i in idx.ravel()]
         from bcause.factors import DeterministicFactor
-        return DeterministicFactor(self.domain, left_vars=[v], values=values)
+        return DeterministicFactor(self.domain, left_vars=[v], values=values, vtype=self.vtype)
 
     def constant(self, left_value):
 
-- 
2.43.0


From 012d228ed9201f08b4770b4e762d942eb58b8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 47/57] fix: interval factors of precise factors keep their
 storage backend

---
 bcause/factors/imprecise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 5b8943e..9c2f630 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -61,7 +61,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars)
+        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars, vtype=list_factors[0].vtype)
 
     @property
     def store_low(self):
-- 
2.43.0


From 7f77f6925d0e912b21c6ada28dadac1779725339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 48/57] fix: weights of variables with many neighbours do not
 overflow when ordering

---
 bcause/inference/ordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 537a466..e667038 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -1,4 +1,5 @@
 from enum import Enum, auto
+from math import prod
 
 import numpy as np
 import networkx as nx
@@ -20,7 +21,7 @@ def fillin_arcs(var, moral):
 # costs
 cost_functions = {
     Heuristic.MIN_SIZE.name : lambda var, moral : len(moral.adj[var]),
-    Heuristic.MIN_WEIGHT.name : lambda var, moral : np.prod([moral.nodes[v]["size"] for v in list(moral[var])+[var]]),
+    Heuristic.MIN_WEIGHT.name : lambda var, moral : prod([moral.nodes[v]["size"] for v in list(moral[var])+[var]]),
     Heuristic.MIN_FILL.name : lambda var, moral : len(fillin_arcs(var, moral))
 }
 
-- 
2.43.0


From 2912b58284901129bc00bffd210926a6f8e75bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 49/57] fix: gradient learning keeps the data store of the
 factors of the model

---
 bcause/learning/parameter/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 0128a3d..462db2c 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -78,7 +78,7 @@ class GradientLikelihood(IterativeParameterLearning):
         N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)
 
         results = self.fitPMF(initial_params, N_bmVbmY, P_bmVbmYu, **kwargs)
-        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'])
+        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'], vtype=m.factors[U].vtype)
         updated_factor.trajectory = results['trajectory'] # the trajectory of the iterations in the optimization process
 
         return updated_factor
-- 
2.43.0


From a39e3d81dcf25636e4029d1002122228e4375299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 50/57] fix: a variable may be named store

---
 bcause/factors/values/numpyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 365ebb9..4b941ae 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -88,7 +88,7 @@ class NumpyStoreOperations(OperationSet):
         return store.builder(data=new_data, domain=new_dom)
 
     @staticmethod
-    def _extend_domain(store, **extra_dom) -> 'NumpyStore':
+    def _extend_domain(store, /, **extra_dom) -> 'NumpyStore':
 
         extra_dom = OrderedDict({v:c for v,c in extra_dom.items() if v not in store.variables})
         add_card = tuple([len(d) for d in extra_dom.values()])
-- 
2.43.0


From e41d341b139dd18a7e94ceca00ef550149006777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 51/57] fix: counting data with categorical or nullable columns

---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index 3903e62..22ef145 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -11,7 +11,7 @@ def to_counts(domains, data=None, normalize=False):
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
-        data = data.fillna("nan")
+        data = data.astype(object).where(data.notna(), "nan")
         dcounts = data.value_counts().to_dict()
     else:
         dcounts = dict()
-- 
2.43.0


From a41f6dcf52d3de1850c246ef43b3f7f3403ace8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 52/57] fix: writing a value into a store of another type of
 numbers does not change it

---
 bcause/factors/values/numpystore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index c16e84d..a2806b2 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -42,6 +42,9 @@ class NumpyStore(DiscreteStore):
         items = []
         for v in self.variables:
             items.append(self.domain[v].index(observation[v]))
+        # the values may be of a type that cannot hold the new one, e.g. a real number among integers
+        dtype = np.result_type(self._data.dtype, np.asarray(value).dtype)
+        if dtype != self._data.dtype: self._data = self._data.astype(dtype)
         self._data[tuple(items)] = value
 
     def get_value(self, **observation):
@@ -73,6 +76,8 @@ class Numpy1DStore(DiscreteStore):
 
     def set_value(self, value, observation):
         idx = list(dutil.index_iterator(self.domain, observation))[0]
+        dtype = np.result_type(self._data.dtype, np.asarray(value).dtype)
+        if dtype != self._data.dtype: self._data = self._data.astype(dtype)
         self._data[idx] = value
 
     def get_value(self, **observation):
-- 
2.43.0


From 38b20db15d6ff16398281b3de02dddfd3e5f0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 53/57] fix: tables of logical values are tables of numbers

---
 bcause/factors/mulitnomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 2a3b6ad..2456468 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -29,6 +29,8 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             if np.ndim(values)==0:
                 values = [values] * int(np.prod(shape))
             if np.ndim(values)==1: values = np.reshape(values, shape)
+            # sums of logical values are not arithmetic
+            if np.asarray(values).dtype == bool: values = np.asarray(values).astype(int)
 
         self._store = store_dict[vtype](data=values, domain=domain)
         self.set_variables(list(domain.keys()), left_vars, right_vars)
-- 
2.43.0


From 8f2f7758b0cf093eb947d833866d1cdf269a5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 54/57] fix: the endogenous variables of a causal model can be
 given as any iterable

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 671a28c..9543e7f 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -150,7 +150,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
+        self._endogenous = list(endogenous or []) or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From 1447d234880a2630fc0ba69046a57a8ef616dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 55/57] fix: two labels for false are not taken as true and
 false

---
 bcause/util/domainutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index ba66b7c..809d89c 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -104,6 +104,8 @@ def identify_true_false(varname, dom):
         tf = [d for d in dom if d==True] + [d for d in dom if d==False]
     elif dtypes[0] == str:
         tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
+        # the states x0 and x2 are both false ones
+        if len(tf)>0 and tf[0].lower() != varname.lower()+"1": tf = []
 
     if len(tf)!=2: raise ValueError("Cannot identify true/false states: wrong values or data types")
 
-- 
2.43.0


From 5a0c4f54dd6b1dc4d27d66509b2b6f8c588aeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 56/57] fix: columns of the data that are not variables of the
 model are ignored when learning

---
 bcause/learning/parameter/expectation_maximization.py | 3 ++-
 bcause/learning/parameter/gradient.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 379a572..0868c5e 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -87,7 +87,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
-        data = data.copy()
+        # the other columns of the data are not about the model
+        data = data[[v for v in data.columns if v in self.prior_model.variables]].copy()
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 462db2c..0f35f43 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -152,7 +152,8 @@ class GradientLikelihood(IterativeParameterLearning):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
-        data = data.copy()
+        # the other columns of the data are not about the model
+        data = data[[v for v in data.columns if v in self.prior_model.variables]].copy()
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-- 
2.43.0


From 1f648b25a6d72991a27323c388b6bddb664a882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 57/57] fix: missing values are counted for numpy string
 domains too

---
 bcause/util/datautils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index 22ef145..a1dbf2f 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -8,9 +8,9 @@ def to_counts(domains, data=None, normalize=False):
         data = data[list(domains.keys())]
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
-            if not all([type(v)==str for v in domains[x]]):
+            if not all([isinstance(v, str) for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
-            domains[x] = domains[x] + ["nan"]
+            domains[x] = domains[x] + [type(domains[x][0])("nan")]
         data = data.astype(object).where(data.notna(), "nan")
         dcounts = data.value_counts().to_dict()
     else:
-- 
2.43.0

