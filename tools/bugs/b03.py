ID, PROPERTY = "C03-small-steps-lost", "C03"
NEEDS = "a history of many pose updates that are each tiny"
BREAKS = "updates below a millimetre refresh the group pose but not the components, so slow motion leaves the components behind"
EDITS = [("multi_obstacle.py", """        self._pose = new_pose
        for pose, obs in zip(self._local_poses, self._obstacle_list):
            obs.pose = self._pose.transform_pose_from_relative(pose)

    def update_def""", """        old_pose, self._pose = self._pose, new_pose
        if self.dimension == 2:
            is_turned = abs(new_pose.orientation - old_pose.orientation) > 1e-3
        else:
            is_turned = True

        if not is_turned and np.allclose(
            new_pose.position, old_pose.position, rtol=0, atol=1e-3
        ):
            # Save the update of all components
            return

        for pose, obs in zip(self._local_poses, self._obstacle_list):
            obs.pose = self._pose.transform_pose_from_relative(pose)

    def update_def""")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
arch = create_arch_obstacle(wall_width=.4, axes_length=np.array([3., 5.]), pose=Pose(np.zeros(2), orientation=0.))
for k in range(1, 2001):
    arch.update_pose(Pose(np.array([k * 5e-4, 0.]), orientation=0.))
root = arch.get_component(0)
assert np.allclose(root.pose.position, [1., 0.], atol=1e-6), f"the arch moved to 1.0, its root is at {root.pose.position}"
'''
