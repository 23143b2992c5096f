PROPERTY = "C06"
NEEDS = "a conditional query of a variable given exactly its parents, with evidence on a descendant that is not a child"
BREAKS = "the conditional table of the model is returned as it is, ignoring evidence on further descendants"
EDITS = [("bcause/inference/probabilistic/probabilistic.py", "        logging.info(\"Preparing conditional query\")\n",
"""        # the conditional distribution given the parents is already in the model
        if isinstance(self.model, PGModel) and len(target) == 1:
            v = target[0]
            if set(conditioning) == set(self.model.get_parents(v)) and set(evidence).isdisjoint(self.model.get_children(v)):
                return self.model.factors[v]

        logging.info("Preparing conditional query")
""")]
DEMO = '''
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
b = [0, 1]
t = [.1, .9, .6, .4]
m = BayesianNetwork("[A][B|A][C|B][D|C]", [MultinomialFactor(dict(A=b), [.3, .7])] + [MultinomialFactor({x: b, y: b}, t, right_vars=[x]) for x, y in ("AB", "BC", "CD")])
p = VariableElimination(m).query("B", conditioning="A", evidence=dict(D=1))
T = lambda i, j: t[2 * i + j]
w = [T(0, k) * sum(T(k, c) * T(c, 1) for c in b) for k in b]
assert abs(p.get_value(A=0, B=1) - w[1] / sum(w)) < 1e-9, (p.values, w)
'''
