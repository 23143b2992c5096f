PROPERTY = 'C30'
NEEDS = 'two queries of one engine for the same variable given different variables in the same state'
BREAKS = 'the model simplified for a query is reused for a later query with the same states of other variables'
EDITS = [('bcause/inference/probabilistic/elimination.py', '        return minimalize(self.model, self._target, self._evidence)\n', '        self._simplified = getattr(self, "_simplified", dict())\n        key = (frozenset(self._target), tuple(self._evidence.values()))\n        if key not in self._simplified: self._simplified[key] = minimalize(self.model, self._target, self._evidence)\n        return self._simplified[key]\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
b = [0, 1]
bn = BayesianNetwork(nx.DiGraph([("A", "C"), ("B", "C")]), [MultinomialFactor(dict(A=b), [.5, .5]), MultinomialFactor(dict(B=b), [.9, .1]), MultinomialFactor(dict(A=b, B=b, C=b), [.1, .9, .2, .8, .3, .7, .4, .6], left_vars=["C"])])
inf = VariableElimination(bn)
inf.query("C", evidence=dict(A=0))
p, q = inf.query("C", evidence=dict(B=0)), VariableElimination(bn).query("C", evidence=dict(B=0))
assert abs(p.get_value(C=0) - q.get_value(C=0)) < 1e-9, (p, q)
'''
