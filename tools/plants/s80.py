PROPERTY = 'C20'
NEEDS = 'a network with probabilities that need more than fifteen digits'
BREAKS = 'probabilities are written with twelve digits'
EDITS = [('bcause/readwrite/bnwrite.py', '        out += f"{len(values)}\\t" + " ".join([str(p) for p in values]) + "\\n"\n', '        out += f"{len(values)}\\t" + " ".join([f"{p:.12g}" for p in values]) + "\\n"\n')]
DEMO = r'''
import os, tempfile
from bcause.models import BayesianNetwork
from bcause.factors import MultinomialFactor
m = BayesianNetwork("[V0]", [MultinomialFactor(dict(V0=[0, 1]), [1/3, 2/3])])
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m.uai"))
    r = BayesianNetwork.read(os.path.join(d, "m.uai"))
assert r.factors["V0"].values == [1/3, 2/3], r.factors["V0"].values
'''
