ID, PROPERTY = "C07-in-place", "C07"
NEEDS = "a moving obstacle and a caller (or a constant nominal motion) that uses the handed-in velocity again"
BREAKS = "the velocity of the obstacles is subtracted from the caller's own array"
EDITS = [("avoidance/rotational_avoider.py", "        initial_velocity = initial_velocity - relative_velocity\n        if not LA", "        initial_velocity -= relative_velocity\n        if not LA")]
DEMO = '''
import numpy as np
from vartools.states import Twist
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer
dyn = LinearSystem(attractor_position=np.array([4., 1.]))
box = RotationContainer()
box.append(EllipseWithAxes(axes_length=np.array([2., 1.]), center_position=np.zeros(2), linear_velocity=np.array([-.5, .1])))
a = RotationalAvoider(initial_dynamics=dyn, obstacle_environment=box, convergence_system=dyn)
p = np.array([-1.8, .3]); v = dyn.evaluate(p); keep = v.copy()
first = a.avoid(p, v)
assert np.array_equal(v, keep), "the caller's velocity was altered"
assert np.allclose(first, a.avoid(p, v))
'''
