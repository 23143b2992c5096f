PROPERTY = 'C19'
NEEDS = 'two root variables with the same distribution'
BREAKS = 'roots with the same probabilities are drawn together, so their samples are identical'
EDITS = [('bcause/models/sampling.py', '        if len(model.get_parents(v)) == 0 : obs_v = model.factors[v].sample(n_samples)\n', '        if len(model.get_parents(v)) == 0 :\n            key = tuple(model.factors[v].values_list)\n            states = model.factors[v].domain[v]\n            if key not in drawn: drawn[key] = [states.index(s[v]) for s in model.factors[v].sample(n_samples)]\n            obs_v = [{v:states[i]} for i in drawn[key]]\n'), ('bcause/models/sampling.py', '    data = pd.DataFrame()\n', '    data, drawn = pd.DataFrame(), dict()\n')]
DEMO = r'''
import networkx as nx, numpy as np
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
np.random.seed(1)
dag = nx.DiGraph()
dag.add_nodes_from(["A", "B"])
bn = BayesianNetwork(dag, [MultinomialFactor({v: ["x", "y"]}, [.5, .5]) for v in "AB"])
s = bn.sample(60)
assert not (s.A == s.B).all()
'''
