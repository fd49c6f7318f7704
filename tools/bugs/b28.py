ID, PROPERTY = "C13-stale-weights", "C13"
NEEDS = "a location inside at least two overlapping rooms where the passage of one of them adds a weight which the next one does not overwrite"
BREAKS = "the displacement weights are kept from one room to the next, so relative references depend on the order of registration"
EDITS = [("multiboundary_container.py", """        num_close = np.sum(ind_close)

        for ii, ii_self""", """        num_close = np.sum(ind_close)
        weights = np.zeros(num_close)

        for ii, ii_self"""),
 ("multiboundary_container.py", """            weights = np.zeros(num_close)

            dist_boundary_point""", """            dist_boundary_point""")]
DEMO = '''
import numpy as np, itertools
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
from nonlinear_avoidance.rotation_container import RotationContainer
try:
    from dynamic_obstacle_avoidance.obstacles import Ellipse
except ImportError:
    pass
def room(c, a):
    return Ellipse(center_position=np.array(c, float), axes_length=np.array(a, float), is_boundary=True)
SPECS = [([0, 0], [4, 3]), ([1.6, .3], [4, 2.2]), ([3.4, .2], [3, 4])]
def refs(order, x):
    m = MultiBoundaryContainer()
    rooms = {}
    for k in order:
        rooms[k] = room(*SPECS[k]); m.append(rooms[k])
    m.update_relative_reference_point(np.array(x))
    return np.array([rooms[k].global_relative_reference_point for k in range(3)])
for x in ([.8, .1], [1.2, .5], [1.5, -.3], [.3, .6], [2.2, .2]):
    a = refs((0, 1, 2), x)
    for o in itertools.permutations(range(3)):
        assert np.allclose(refs(o, x), a), (x, o)
'''
