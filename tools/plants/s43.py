PROPERTY = 'C24'
NEEDS = 'looking at which variables of an intervened model are endogenous'
BREAKS = 'intervened variables become exogenous'
EDITS = [('bcause/models/cmodel.py', '        return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=self.endogenous, cast_multinomial=self._cast_multinomial)\n\n    def rename_vars', '        return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=[v for v in self.endogenous if v not in obs], cast_multinomial=self._cast_multinomial)\n\n    def rename_vars')]
DEMO = r'''
import networkx as nx
from bcause.models.cmodel import StructuralCausalModel
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("X", "Y"), ("W", "Y")]))
m.fill_random_factors({v: [0, 1] for v in m.variables})
i = m.intervention(X=0)
assert set(i.endogenous) == {"X", "Y"}, i.endogenous
'''
