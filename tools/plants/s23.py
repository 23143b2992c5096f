PROPERTY = 'C20'
NEEDS = 'writing with an order of variables of our own and variables of different sizes'
BREAKS = 'the sizes of the variables are written in the order of the model instead of the requested one'
EDITS = [('bcause/readwrite/bnwrite.py', '    out += " ".join([f"{model.varsizes[v]}" for v in variables])\n', '    out += " ".join([f"{s}" for s in (model.varsizes.values() if label == "BAYES" else [model.varsizes[v] for v in variables])])\n')]
DEMO = r'''
import networkx as nx, tempfile
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
bn = BayesianNetwork(nx.DiGraph([("A", "B")]), [MultinomialFactor(dict(A=[0, 1]), [.5, .5]), MultinomialFactor(dict(A=[0, 1], B=[0, 1, 2]), [.2, .3, .5, .1, .1, .8], left_vars=["B"])])
with tempfile.TemporaryDirectory() as t:
    bn.save(t + "/x.uai", var_order=["B", "A"])
    r = BayesianNetwork.read(t + "/x.uai")
assert r.varsizes == dict(V0=3, V1=2), r.varsizes
'''
