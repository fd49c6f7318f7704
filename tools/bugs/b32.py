ID, PROPERTY = "C05-far-spin", "C05"
NEEDS = "a turning compound obstacle and a robot far away from it"
BREAKS = "the turning of an obstacle is felt undiminished by distance, so far commands do not approach the nominal motion"
EDITS = [("multi_obstacle_avoider.py", """                    + weights[ii]
                    * influence_weight[ii]
                    * angular_velocity""", """                    + weights[ii]
                    * angular_velocity""")]
DEMO = '''
import numpy as np
from vartools.states import Pose, Twist
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
tree = MultiObstacle(Pose(np.array([3.0, 1.0]), 0.0))
tree.set_root(Cuboid(axes_length=np.array([1.0, 1.0]), pose=Pose(np.zeros(2), 0.0)))
tree.twist = Twist(linear=np.zeros(2), angular=0.5)
c = MultiObstacleContainer(); c.append(tree)
ds = LinearSystem(attractor_position=np.zeros(2), maximum_velocity=1.0)
a = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=c, initial_dynamics=ds)
for x in ([-200.0, 30.0], [100.0, 300.0]):
    x = np.array(x)
    assert np.linalg.norm(a.evaluate(x) - ds.evaluate(x)) < 0.05, (a.evaluate(x), ds.evaluate(x))
'''
