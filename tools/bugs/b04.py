ID, PROPERTY = "C04-turning-in-place", "C04"
NEEDS = "an obstacle that turns in place (angular without linear velocity) and sweeps over a robot next to it"
BREAKS = "the velocity of an obstacle that only turns is ignored, so the robot is run over by its turning arm"
EDITS = [("multi_obstacle_avoider.py", """        if hasattr(obs, "twist") and obs.twist is not None:
            relative_velocity""", """        if hasattr(obs, "twist") and obs.twist is not None and np.any(obs.twist.linear):
            relative_velocity""")]
DEMO = '''
import numpy as np
from vartools.states import Pose, Twist
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import CuboidXd
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
bar = MultiObstacle(Pose(np.zeros(2), orientation=0.))
bar.set_root(CuboidXd(axes_length=np.array([6., .6]), pose=Pose(np.zeros(2), orientation=0.)))
bar.twist = Twist(linear=np.zeros(2), angular=.4)
box = MultiObstacleContainer(); box.append(bar)
dyn = LinearSystem(attractor_position=np.array([2., 3.]), maximum_velocity=.3)
av = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=box, initial_dynamics=dyn, reference_dynamics=dyn)
p, dt = np.array([2., .5]), .01
worst = 1e9
for k in range(150):
    v = av.evaluate(p)
    p = p + dt * v
    bar.update_pose(Pose(np.zeros(2), orientation=.4 * dt * (k + 1)))
    worst = min(worst, bar.get_gamma(p))
assert worst > 1 - 1e-2, f"the bar ran over the robot (gamma {worst})"
'''
