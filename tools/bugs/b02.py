ID, PROPERTY = "C02-robot-order", "C02"
NEEDS = "a robot that moves, and a batch in which the robot's own body comes after a body part"
BREAKS = "parts listed before the robot in a batch are put into the frame of the robot's previous pose"
EDITS = [("multi_body_human.py", """        if self.robot is not None:
            try:
                index_franka_list = indeces_measures.index(self.robot.optitrack_id)

            except ValueError:
                # Element not in list
                pass

            else:
                # So far: no filter for the robot (!)
                franka_object = new_object_poses[index_franka_list]

                self.robot.pose.position = franka_object.position
                self.robot.pose.orientation = franka_object.rotation

        # Update filters and put to poses
        filtered_poses = [None] * self.n_components
        for ii, idx_meas in enumerate(indeces_measures):
            try:
""", """        # Update filters and put to poses
        filtered_poses = [None] * self.n_components
        for ii, idx_meas in enumerate(indeces_measures):
            if self.robot is not None and idx_meas == self.robot.optitrack_id:
                # So far: no filter for the robot (!)
                franka_object = new_object_poses[ii]

                self.robot.pose.position = franka_object.position
                self.robot.pose.orientation = franka_object.rotation
                continue

            try:
""")]
DEMO = '''
import numpy as np
from scipy.spatial.transform import Rotation
from vartools.states import ObjectPose
from dynamic_obstacle_avoidance.obstacles import CuboidXd
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.rigid_body import RigidBody
class Source:
    messages = []
    def get_messages(self): return self.messages
class Robot:
    optitrack_id = 1
    def publish_robot_transform(self): pass
    def __init__(self): self.pose = ObjectPose(position=np.zeros(3), orientation=Rotation.from_euler("x", 0))
def box(): return CuboidXd(axes_length=np.ones(3) * .3, pose=ObjectPose(position=np.zeros(3), orientation=Rotation.from_euler("x", 0)))
def run(reverse):
    src = Source()
    body = MultiBodyObstacle(pose_updater=src, robot=Robot())
    body.set_root(box(), name="r", update_id=7)
    for k in range(4):
        batch = [RigidBody(1, np.array([k * 1., .5 * k, 0]), Rotation.from_euler("z", .3 * k)), RigidBody(7, np.array([2., 1., 0]), Rotation.from_euler("z", .1))]
        src.messages = batch[::-1] if reverse else batch
        body.update()
    return body[0].pose.position
assert np.allclose(run(False), run(True)), "the order of the batch matters"
'''
