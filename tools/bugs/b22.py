ID, PROPERTY = "C04-moving-and-growing", "C04"
NEEDS = "an obstacle that has a velocity of its own and grows at the same time"
BREAKS = "the growth of an obstacle that also moves is ignored, so that the robot is overrun by its surface"
EDITS = [("multi_obstacle_avoider.py", """        if hasattr(obs, "deformation_rate"):
            relative_velocity = (""", """        elif hasattr(obs, "deformation_rate"):
            relative_velocity = (""")]
DEMO = '''
import numpy as np
from vartools.states import Pose, Twist
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity
o = MultiObstacle(Pose(np.zeros(2), orientation=0.0))
o.set_root(EllipseWithAxes(center_position=np.zeros(2), axes_length=np.array([2., 2.])))
o.deformation_rate = 0.5
x = np.array([1.0001, 0.])
assert np.allclose(compute_multiobstacle_relative_velocity(x, [o]), [.5, 0], atol=1e-2)
o.twist = Twist(np.array([0., .3]), 0.0)
assert np.allclose(compute_multiobstacle_relative_velocity(x, [o]), [.5, .3], atol=1e-2)
'''
