ID, PROPERTY = "C06-tail-and", "C06"
NEEDS = "an obstacle without tail effect between the robot and its goal"
BREAKS = "obstacles without tail effect do not deflect a robot which runs against them: it comes to rest in front of them"
EDITS = [("multi_obstacle_avoider.py", "            obstacle.get_component(comp_id).tail_effect\n            or np.dot", "            obstacle.get_component(comp_id).tail_effect\n            and np.dot")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
goal = np.array([4., 0.])
dyn = LinearSystem(attractor_position=goal, maximum_velocity=1.)
for tail in (True, False):
    o = MultiObstacle(Pose(np.zeros(2), orientation=0.))
    o.set_root(EllipseWithAxes(axes_length=np.array([1., 3.]), pose=Pose(np.zeros(2), orientation=0.), tail_effect=tail))
    box = MultiObstacleContainer()
    box.append(o)
    a = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=box, initial_dynamics=dyn, reference_dynamics=dyn)
    p = np.array([-3., .3])
    for _ in range(4000):
        p = p + .02 * a.evaluate(p)
        if np.linalg.norm(p - goal) < .1:
            break
    assert np.linalg.norm(p - goal) < .1, f"tail_effect={tail}: came to rest at {p}"
'''
