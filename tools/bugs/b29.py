ID, PROPERTY = "C02-filter-in-robot-frame", "C02"
NEEDS = "a robot whose own measured pose changes between two measurements of a tracked part"
BREAKS = "the position is filtered after the change into the robot frame, so the filter mixes frames of different instants and a standing person moves along with the robot"
EDITS = [("multi_body_human.py", """                self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
""", """                position = new_object_poses[ii].position
                if transform_to_robot_frame and self.robot is not None:
                    position = self.robot.pose.transform_position_to_relative(position)

                self.position_filters[idx_tree].run_once(position)
"""), ("multi_body_human.py", """                        position=self.robot.pose.transform_position_to_relative(
                            self.position_filters[idx_tree].position
                        ),
                        orientation=self.robot.pose.transform_orientation_to_relative(
                            self.orientation_filters[idx_tree].rotation
                        ),
                    )
                else""", """                        position=self.position_filters[idx_tree].position,
                        orientation=self.robot.pose.transform_orientation_to_relative(
                            self.orientation_filters[idx_tree].rotation
                        ),
                    )
                else""")]
DEMO = '''
import numpy as np
from types import SimpleNamespace
from scipy.spatial.transform import Rotation
from vartools.states import Pose, ObjectPose
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
class Updater:
    def get_messages(self):
        return self.batch
def msg(i, p):
    return SimpleNamespace(obs_id=i, position=np.array(p, float), rotation=Rotation.from_euler("z", 0))
robot = SimpleNamespace(optitrack_id=16, pose=ObjectPose(np.zeros(3), Rotation.from_euler("z", 0)), publish_robot_transform=lambda: None)
u = Updater()
b = MultiBodyObstacle(pose_updater=u, robot=robot)
b.set_root(Cuboid(axes_length=np.ones(3), center_position=np.zeros(3)), name="body", update_id=3)
for k in range(60):
    u.batch = [msg(16, [0, 0, 0]), msg(3, [2, 1, 1])]
    b.update()
u.batch = [msg(16, [1, 0, 0]), msg(3, [2, 1, 1])]
b.update()
assert np.allclose(b.get_pose().position[:2], [1, 1], atol=1e-3), b.get_pose().position
'''
