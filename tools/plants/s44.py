PROPERTY = 'C16'
NEEDS = 'asking the same variables with the same intervention first as a causal and then as a counterfactual query'
BREAKS = 'answers of the models are remembered by target, intervention and evidence only'
EDITS = [('bcause/inference/causal/multi.py', '        if not self._compiled: self.compile()\n        return self._process_output([inf.query(target,do,evidence,counterfactual,targets_subgraphs) for inf in self._causal_inf])\n', '        if not self._compiled: self.compile()\n        key = repr((target, do, evidence, targets_subgraphs))\n        if key not in self._answers:\n            self._answers[key] = [inf.query(target,do,evidence,counterfactual,targets_subgraphs) for inf in self._causal_inf]\n        return self._process_output(list(self._answers[key]))\n'), ('bcause/inference/causal/multi.py', '        self._causal_inf = [self._causal_inf_fn(m) for m in self._models]\n', '        self._causal_inf, self._answers = [self._causal_inf_fn(m) for m in self._models], dict()\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import CausalMultiInference
import networkx as nx
def model(p):
    fx = DeterministicFactor(dict(U=["a", "b"], X=[0, 1]), left_vars=["X"], values=[0, 1])
    fy = DeterministicFactor(dict(V=["c", "d"], X=[0, 1], Y=[0, 1]), left_vars=["Y"], values=[0, 1, 1, 0])
    return StructuralCausalModel(nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")]), [fx, fy, MultinomialFactor(dict(U=["a", "b"]), [p, 1 - p]), MultinomialFactor(dict(V=["c", "d"]), [p, 1 - p])])
inf = CausalMultiInference([model(.3), model(.4)], interval_result=False)
inf.causal_query("Y", do=dict(X=0), evidence=None)
r = inf.counterfactual_query("Y", do=dict(X=0))
assert r[0].variables == ["Y_1"], r
'''
