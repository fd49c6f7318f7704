ID, PROPERTY = "C13-trace-left", "C13"
NEEDS = "a relative reference computed inside a room, then one computed for a location outside that room but inside another"
BREAKS = "rooms the location has left keep the relative reference of the earlier location"
EDITS = [("multiboundary_container.py", """        for ii_self in np.arange(self.n_obstacles)[~ind_inside]:
            self[ii_self].reset_relative_reference()
""", """        if not np.any(ind_inside):
            self.reset_relative_references()
""")]
DEMO = '''
import numpy as np
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
def rooms():
    c = MultiBoundaryContainer()
    for k in range(2):
        c.append(EllipseWithAxes(center_position=np.array([2. * k, 0.]), axes_length=np.array([3., 3.]), is_boundary=True), parent=(-1 if k else None))
    return c
a, b = rooms(), rooms()
a.update_relative_reference_point(np.array([.9, .1]))
a.update_relative_reference_point(np.array([2.9, .1]))
b.update_relative_reference_point(np.array([2.9, .1]))
for k in range(2):
    assert np.allclose(a[k].global_relative_reference_point, b[k].global_relative_reference_point), f"room {k} keeps a trace of the earlier location"
'''
