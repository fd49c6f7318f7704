ID, PROPERTY = "C02-marker-zero", "C02"
NEEDS = "a part tracked by the marker with the number 0"
BREAKS = "a part with marker 0 is never measured"
EDITS = [("multi_body_human.py", """        self._graph.add_edge(parent_ind, self._id_counter)

        self.create_filters(is_updating=(not update_id is None))
""", """        self._graph.add_edge(parent_ind, self._id_counter)

        self.create_filters(is_updating=bool(update_id))
""")]
DEMO = '''
import numpy as np
from scipy.spatial.transform import Rotation
from vartools.states import ObjectPose
from dynamic_obstacle_avoidance.obstacles import CuboidXd
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.rigid_body import RigidBody
class Source:
    messages = []
    def get_messages(self): return self.messages
def box(): return CuboidXd(axes_length=np.ones(3) * .3, pose=ObjectPose(position=np.zeros(3), orientation=Rotation.from_euler("x", 0)))
for marker in (3, 0):
    src = Source()
    body = MultiBodyObstacle(pose_updater=src, robot=None)
    body.set_root(box(), name="r", update_id=7)
    body.add_component(box(), name="a", parent_name="r", reference_position=[0, 0, -.2], parent_reference_position=[0, 0, .3], update_id=marker)
    one = Rotation.from_euler("x", 0)
    src.messages = [RigidBody(7, np.array([0., 0, .2]), one), RigidBody(marker, np.array([.5, 0, .6]), one)]
    for _ in range(300):
        body.update_using_optitrack(transform_to_robot_frame=False)
    turned = (body[1].orientation * one.inv()).magnitude()
    assert turned > .3, f"the part with marker {marker} does not follow ({turned})"
'''
