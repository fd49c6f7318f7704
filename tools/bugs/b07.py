ID, PROPERTY = "C14-weights-left", "C14"
NEEDS = "two averages of the same tree over different entries, where entries of the first are missing in the second"
BREAKS = "weights of entries that are not part of a query survive from the query before"
EDITS = [("vector_rotation.py", """        for node_id in self._graph.nodes:
            self._graph.nodes[node_id]["weight"] = 0
""", """        for node_id in self._graph.nodes:
            if node_id == self._root_idx or self._graph.out_degree(node_id):
                # Others are assigned
                self._graph.nodes[node_id]["weight"] = 0
""")]
DEMO = '''
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree
def tree():
    t = VectorRotationTree()
    t.set_root(0, np.array([1., 0.]))
    t.add_node(node_id=1, parent_id=0, direction=np.array([0.6, 0.8]))
    t.add_node(node_id=2, parent_id=0, direction=np.array([0., -1.]))
    return t
a, b = tree(), tree()
a.get_weighted_mean([1, 2], [.5, .5])
assert np.allclose(a.get_weighted_mean([1, 0], [.3, .7]), b.get_weighted_mean([1, 0], [.3, .7])), "the earlier query matters"
'''
