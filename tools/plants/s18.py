PROPERTY = 'C16'
NEEDS = 'replacing the models of an engine that has already been queried'
BREAKS = 'engines of the models given before are kept when the models are replaced'
EDITS = [('bcause/inference/causal/multi.py', '        self._causal_inf = [self._causal_inf_fn(m) for m in self._models]\n', '        kept = getattr(self, "_causal_inf", [])[:len(self._models)]\n        self._causal_inf = kept + [self._causal_inf_fn(m) for m in self._models[len(kept):]]\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import CausalMultiInference
def mk(p):
    return StructuralCausalModel(nx.DiGraph([("U", "X")]), [DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1]), MultinomialFactor(dict(U=[0, 1]), [p, 1 - p])])
inf = CausalMultiInference([mk(.1), mk(.2)], interval_result=False)
inf.causal_query("X", do={})
inf.set_models([mk(.7), mk(.9)])
r = [round(x.get_value(X=0), 6) for x in inf.causal_query("X", do={})]
assert r == [.7, .9], r
'''
