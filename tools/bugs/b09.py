ID, PROPERTY = "C05-head-on", "C05"
NEEDS = "a robot exactly on the line through the reference point of an obstacle to the goal"
BREAKS = "the evaluation aborts with a division by zero when the direction to the goal runs exactly through the reference point"
EDITS = [("avoidance/rotational_avoider.py", "        ref_radius = min(radius_base, convergence_radius) - LA.norm(angle_ref)\n", "        ref_radius = float(min(radius_base, convergence_radius) - LA.norm(angle_ref))\n")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer
goal = np.array([4., 0.])
dyn = LinearSystem(attractor_position=goal)
for angle in (0., .3, .7):
    o = MultiObstacle(Pose(np.zeros(2), orientation=0.))
    o.set_root(EllipseWithAxes(axes_length=np.array([3., 1.]), pose=Pose(np.zeros(2), orientation=angle)))
    box = MultiObstacleContainer()
    box.append(o)
    a = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=box, initial_dynamics=dyn, reference_dynamics=dyn)
    for x in (-3., -2.5, -2., -1.7):
        p = np.array([x, 0.])
        assert box.get_gamma(p) > 1
        v = a.evaluate(p)
        assert np.all(np.isfinite(v)), v
'''
