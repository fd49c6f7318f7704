ID, PROPERTY = "C13-last-room-counts", "C13"
NEEDS = "a location inside a room close to two other rooms, the last of which does not reach the boundary point behind the location"
BREAKS = "the relative reference considers only the room that was registered last"
EDITS = [("multiboundary_container.py", "rel_reference_weight = np.max(weights)", "rel_reference_weight = weights[-1]")]
DEMO = '''
import numpy as np
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
def rooms(centers):
    c = MultiBoundaryContainer()
    for k, x in enumerate(centers):
        c.append(EllipseWithAxes(center_position=np.array(x), axes_length=np.array([4., 4.]), is_boundary=True))
    return c
centers = [[0., 0.], [3., 0.], [-3., 0.]]
p = np.array([1.2, .1])
a, b = rooms(centers), rooms([centers[0], centers[2], centers[1]])
a.update_relative_reference_point(p); b.update_relative_reference_point(p)
assert np.allclose(a[0].global_relative_reference_point, b[0].global_relative_reference_point), "the order of the rooms matters"
'''
