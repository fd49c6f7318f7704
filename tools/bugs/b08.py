ID, PROPERTY = "C07-cached-avoidance", "C07"
NEEDS = "asking twice for the same position with an obstacle moved in between"
BREAKS = "the velocity of the obstacles is remembered for a position and reused after the obstacles changed their motion"
EDITS = [("multi_obstacle_avoider.py", """        relative_velocity = compute_multiobstacle_relative_velocity(
            position, self.tree_list
        )
        
        convergence_sequence""", """        if self._old_relative_velocity is None or not np.array_equal(
            position, self._old_relative_velocity[0]
        ):
            self._old_relative_velocity = (
                np.copy(position),
                compute_multiobstacle_relative_velocity(position, self.tree_list),
            )
        relative_velocity = self._old_relative_velocity[1]

        convergence_sequence""")]
DEMO = '''
import numpy as np
from vartools.states import Pose, Twist
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
o = MultiObstacle(Pose(np.zeros(2), orientation=0.))
o.set_root(EllipseWithAxes(axes_length=np.array([2., 1.]), pose=Pose(np.zeros(2), orientation=0.)))
box = MultiObstacleContainer(); box.append(o)
dyn = LinearSystem(attractor_position=np.array([4., 1.]))
def make(): return MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=box, initial_dynamics=dyn, reference_dynamics=dyn)
p = np.array([-1.6, .3])
a = make()
a.evaluate(p)
o.twist = Twist(linear=np.array([0., .7]), angular=0.)
assert np.allclose(a.evaluate(p), make().evaluate(p)), "the earlier query matters"
'''
