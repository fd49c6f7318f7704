ID, PROPERTY = "C14-shallow-update", "C14"
NEEDS = "a tree in which at least two levels of directions hang below the entry, and a query which weights that entry partly"
BREAKS = "only the direct children are turned along with a partly weighted entry, the directions below them stay behind"
EDITS = [("vector_rotation.py", """            successors = self.get_all_childs_children(node_id)

            _succ_basis = []
            for succ""", """            successors = list(self._graph.successors(node_id))

            _succ_basis = []
            for succ""")]
DEMO = '''
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree
def mean(turn):
    dirs = [np.array(v, dtype=float) for v in ([1, 0, 0], [0, 1, 0], [.5, .7, .4], [.1, .2, .9], [.9, -.3, .1])]
    dirs = [turn @ v / np.linalg.norm(v) for v in dirs]
    t = VectorRotationTree(root_idx=0, root_direction=dirs[0])
    t.add_node(node_id=1, parent_id=0, direction=dirs[1])
    t.add_node(node_id=2, parent_id=1, direction=dirs[2])
    t.add_node(node_id=3, parent_id=2, direction=dirs[3])
    t.add_node(node_id=4, parent_id=0, direction=dirs[4])
    return t.get_weighted_mean(node_list=[0, 3, 4], weights=[.3, .45, .25])
m = mean(np.eye(3))
assert abs(np.linalg.norm(m) - 1) < 1e-9
# the average as the original code has it
assert np.allclose(m, [0.7310361039358255, 0.34591636767151496, 0.5881565109044311], atol=1e-6), m
'''
