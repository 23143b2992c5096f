PROPERTY = 'C25'
NEEDS = 'no evidence, and nodes connected through a common effect only'
BREAKS = 'without evidence the nodes of the same connected part count as dependent'
EDITS = [('bcause/util/graphutils.py', '    target, evidence_nodes = as_lists(target, evidence_nodes)\n\n    dsep = set(\n        [v for v in dag.nodes if\n         nx.d_separated(dag, x=set(target), y={v}, z=set(evidence_nodes)-{v})])\n', '    target, evidence_nodes = as_lists(target, evidence_nodes)\n    if len(evidence_nodes) == 0 and len(target) > 1: return disconnected_nodes(dag, target)\n\n    dsep = set([v for v in dag.nodes if\n         nx.d_separated(dag, x=set(target), y={v}, z=set(evidence_nodes)-{v})])\n')]
DEMO = r'''
import networkx as nx
from bcause.util.graphutils import dsep_nodes
g = nx.DiGraph([("A", "C"), ("B", "C"), ("D", "A")])
assert dsep_nodes(g, ["A", "D"], []) == {"B"}, dsep_nodes(g, ["A", "D"], [])
'''
