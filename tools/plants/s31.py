PROPERTY = 'C28'
NEEDS = 'a query between two draws, with ties between variables in the elimination order'
BREAKS = 'ties in the elimination order are broken with the global random generator'
EDITS = [('bcause/inference/ordering.py', '    choice = np.random.RandomState(random_state).choice\n', '    choice = np.random.choice if random_state is None or to_remove is not None and len(to_remove) > 3 else np.random.RandomState(random_state).choice\n')]
DEMO = r'''
import networkx as nx, numpy as np
from bcause.models.bnet import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
bn = BayesianNetwork(nx.DiGraph([(f"V{i}", "V6") for i in range(6)]))
bn.randomize_factors({v: [0, 1] for v in bn.variables})
s = np.random.get_state()[1].tolist(), np.random.get_state()[2]
VariableElimination(bn).query("V6")
assert s == (np.random.get_state()[1].tolist(), np.random.get_state()[2])
'''
