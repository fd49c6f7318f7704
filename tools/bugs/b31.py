ID, PROPERTY = "C07-remembered-tree-weight", "C07"
NEEDS = "a compound obstacle that moves towards, onto or away from the goal between two queries"
BREAKS = "how close an obstacle is to the goal is measured once and remembered, so later commands depend on where the obstacle used to be"
EDITS = [("multi_obstacle_avoider.py", """        tree_gamma = obstacle.get_gamma(self.singularity, in_global_frame=True)

        if tree_gamma <= 1.0:""", """        key = (id(obstacle), *map(float, self.singularity))
        if key not in self._tree_gammas:
            # Expensive for large trees, and the attractor does not move
            self._tree_gammas[key] = obstacle.get_gamma(
                self.singularity, in_global_frame=True
            )
        tree_gamma = self._tree_gammas[key]

        if tree_gamma <= 1.0:"""),
 ("multi_obstacle_avoider.py", """        self._rotation_weights: list[float]
        self._conv""", """        self._rotation_weights: list[float]
        self._tree_gammas: dict = {}
        self._conv""")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
def world(pos):
    tree = MultiObstacle(Pose(np.array(pos, float), 0.0))
    tree.set_root(Cuboid(axes_length=np.array([1.0, 1.0]), pose=Pose(np.zeros(2), 0.0)))
    c = MultiObstacleContainer(); c.append(tree)
    ds = LinearSystem(attractor_position=np.zeros(2))
    return tree, MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=c, initial_dynamics=ds)
x = np.array([-2.0, 0.6])
tree, a = world([0.7, 0.1])
a.evaluate(x)
tree.update_pose(Pose(np.array([-1.0, 0.5]), 0.0))
assert np.allclose(a.evaluate(x), world([-1.0, 0.5])[1].evaluate(x), atol=1e-9), (a.evaluate(x), world([-1.0, 0.5])[1].evaluate(x))
'''
