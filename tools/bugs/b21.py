ID, PROPERTY = "C01-tips-first", "C01"
NEEDS = "a body without a tracker that is at least three links deep, whose root was moved"
BREAKS = "without a tracker the limbs are aligned from the tips to the root, so that a limb hangs on where its parent was"
EDITS = [("multi_body_human.py", """            obs_indeces = obs_indeces + list(self._graph.successors(idx_node))

            it_node += 1  # Iterate

            self.align_position_with_parent(idx_node)
""", """            obs_indeces = obs_indeces + list(self._graph.successors(idx_node))

            it_node += 1  # Iterate

        for idx_node in reversed(obs_indeces):
            self.align_position_with_parent(idx_node)
""")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from scipy.spatial.transform import Rotation
from dynamic_obstacle_avoidance.obstacles import CuboidXd
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
def box():
    return CuboidXd(axes_length=np.array([.4, .4, 1.]), pose=Pose(np.zeros(3), Rotation.from_euler("x", 0)))
b = MultiBodyObstacle()
b.set_root(box(), name="root")
for k, (name, parent) in enumerate([("a", "root"), ("b", "a"), ("c", "b")]):
    b.add_component(box(), name=name, reference_position=[0, 0, -.5], parent_name=parent, parent_reference_position=[0, 0, .5])
b.update()
b[0].pose.position = np.array([3., -1., .2])
b.update()
for k in range(1, 4):
    assert np.allclose(b[k].pose.position, [3., -1., .2 + k]), f"part {k} is left behind at {b[k].pose.position}"
'''
