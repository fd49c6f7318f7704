ID, PROPERTY = "C03-breathing-in-place", "C03"
NEEDS = "a size change that is not followed by a new pose"
BREAKS = "the components of a breathing group that stands still do not move apart as their placement grows"
EDITS = [("multi_obstacle.py", """
            obs.pose = self._pose.transform_pose_from_relative(pose)

    def is_coll""", """
            # Poses follow with the next update of the group

    def is_coll""")]
DEMO = '''
import numpy as np
from vartools.states import Pose
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.multi_obstacle import MultiObstacle
o = MultiObstacle(Pose(np.array([1., 2.]), orientation=.4))
def e(p): return EllipseWithAxes(axes_length=np.array([2., 1.]), pose=Pose(np.array(p), orientation=0.))
o.set_root(e([0., 0.]))
o.add_component(e([1., 0.]), parent_ind=0, reference_position=np.array([-.5, 0.]))
o.deformation_rate = .5
for _ in range(3):
    o.update_deformation(.1)
    for local, c in zip(o._local_poses, o):
        assert np.allclose(c.pose.position, o.get_pose().transform_position_from_relative(local.position)), "component left behind"
assert o[1].axes_length[0] > 2.2
'''
