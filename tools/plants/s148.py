PROPERTY = 'C16'
NEEDS = 'models with the same exogenous distributions and different equations'
BREAKS = 'models that agree in the graph and the exogenous distributions are asked only once'
EDITS = [('bcause/inference/causal/multi.py', '        self._causal_inf = [self._causal_inf_fn(m) for m in self._models]\n', '        precise = {(str(m.graph.edges), *[str(m.factors[u].values_dict) for u in m.exogenous]): m for m in self._models}\n        self._causal_inf = [self._causal_inf_fn(m) for m in precise.values()]\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import CausalMultiInference
def model(vals):
    f = DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=vals)
    return StructuralCausalModel(nx.DiGraph([("U", "X")]), [f, MultinomialFactor(dict(U=[0, 1]), [.2, .8])], cast_multinomial=True)
inf = CausalMultiInference([model([0, 1]), model([1, 0])])
r = inf.causal_query("X", do={}).get_value(X=1)
assert abs(r[0] - .2) < 1e-9 and abs(r[1] - .8) < 1e-9, r
'''
