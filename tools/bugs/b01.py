ID, PROPERTY = "C01-static-chain-skipped", "C01"
NEEDS = "a chain of two untracked parts below a tracked part, and a batch that moves that part"
BREAKS = "an untracked part whose direct parent was not measured is taken as unmoved, so the second untracked part of a chain is left behind when the tracked part above moves"
EDITS = [("multi_body_human.py", """                idx_parent = list(self._graph.predecessors(idx_node))[0]
                self[idx_node].orientation = self[idx_parent].orientation

                self.align_position_with_parent(idx_node)
""", """                idx_parent = list(self._graph.predecessors(idx_node))[0]
                self[idx_node].orientation = self[idx_parent].orientation

                if idx_parent == self.root_idx or filtered_poses[idx_parent] is not None:
                    # The parent has moved
                    self.align_position_with_parent(idx_node)
""")]
DEMO = '''
import numpy as np
from scipy.spatial.transform import Rotation
from vartools.states import ObjectPose
from dynamic_obstacle_avoidance.obstacles import CuboidXd
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.rigid_body import RigidBody
class Source:
    messages = []
    def get_messages(self): return self.messages
def box(): return CuboidXd(axes_length=np.ones(3) * .3, pose=ObjectPose(position=np.zeros(3), orientation=Rotation.from_euler("x", 0)))
src = Source()
body = MultiBodyObstacle(pose_updater=src, robot=None)
body.set_root(box(), name="r", update_id=7)
body.add_component(box(), name="a", parent_name="r", reference_position=[0, 0, -.2], parent_reference_position=[0, 0, .3])
body.add_component(box(), name="b", parent_name="a", reference_position=[0, -.1, -.2], parent_reference_position=[0, 0, .3])
for k in range(5):
    src.messages = [RigidBody(7, np.array([k * .3, -k * .1, .1]), Rotation.from_euler("z", .2 * k))]
    body.update()
    for c, p, lc, lp in ((1, 0, [0, 0, -.2], [0, 0, .3]), (2, 1, [0, -.1, -.2], [0, 0, .3])):
        j1 = body[c].pose.transform_position_from_relative(np.array(lc))
        j2 = body[p].pose.transform_position_from_relative(np.array(lp))
        assert np.allclose(j1, j2), f"part {c} came off part {p}: {j1} {j2}"
'''
