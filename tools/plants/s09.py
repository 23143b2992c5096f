PROPERTY = "C09"
NEEDS = "an intervention on two variables one of which is a parent of the other"
BREAKS = "the arc between two intervened variables is kept"
EDITS = [("bcause/util/graphutils.py", "    involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars]\n", "    involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars and x not in children_vars]\n")]
DEMO = '''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
dag = nx.DiGraph([("X", "Y"), ("Y", "Z"), ("U", "X"), ("V", "Y"), ("W", "Z")])
b = [0, 1]
m = StructuralCausalModel(dag, [MultinomialFactor(dict(U=b), [.3, .7]), MultinomialFactor(dict(V=b), [.4, .6]), MultinomialFactor(dict(W=b), [.9, .1]),
    DeterministicFactor(dict(U=b, X=b), left_vars=["X"], values=[0, 1]), DeterministicFactor(dict(X=b, V=b, Y=b), left_vars=["Y"], values=[0, 1, 1, 0]),
    DeterministicFactor(dict(Y=b, W=b, Z=b), left_vars=["Z"], values=[0, 1, 1, 0])])
r = CausalVariableElimination(m).causal_query("Z", do=dict(X=1, Y=0))
assert abs(r.get_value(Z=1) - .1) < 1e-9, r.values
'''
