PROPERTY = 'C22'
NEEDS = 'a query refused for an unknown variable, followed by running the compiled query again'
BREAKS = 'the query is stored before it is checked, so a refused one replaces the compiled one'
EDITS = [('bcause/inference/probabilistic/probabilistic.py', '        assert_dag_with_nodes(self.model.graph, target | evidence.keys())\n\n        self._target = target\n        self._evidence = evidence or dict()\n', '        self._target, self._evidence = target, evidence\n        assert_dag_with_nodes(self.model.graph, target | evidence.keys())\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
dag = nx.DiGraph([("A", "B")])
m = BayesianNetwork(dag, [MultinomialFactor(dict(A=[0, 1]), [.3, .7]), MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [[.2, .8], [.5, .5]], left_vars=["B"])])
inf = VariableElimination(m)
inf.compile("A", dict(B=1))
a = inf.run().values
try:
    inf.query("A", evidence=dict(Z=1, B=0))
    assert False
except nx.NodeNotFound:
    pass
assert inf.run().values == a, (inf.run(), a)
'''
