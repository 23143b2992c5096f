PROPERTY = 'C13'
NEEDS = 'the maximum log-likelihood of some of the variables'
BREAKS = 'the maximum log-likelihood is computed for all the variables whatever is asked'
EDITS = [('bcause/models/cmodel.py', '        bn = self.get_qbnet(data)\n        obs = data.to_dict("records")\n        return np.sum(bn.log_prob(obs,variables))\n', '        bn = self.get_qbnet(data)\n        obs = data.to_dict("records")\n        return np.sum(bn.log_prob(obs))\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("V", "Y"), ("X", "Y")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1], V=[0, 1, 2, 3], X=[0, 1], Y=[0, 1]))
data = m.sampleEndogenous(60)
n = data["X"].value_counts()
want = sum(k * np.log(k / 60) for k in n)
assert abs(m.max_log_likelihood(data, variables=["X"]) - want) < 1e-6
'''
