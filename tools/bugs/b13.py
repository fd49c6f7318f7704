ID, PROPERTY = "C11-hasty-frame", "C11"
NEEDS = "a robot close to a moving frame"
BREAKS = "the frame moves up to twice as fast as its own motion while the robot is close to its centre"
EDITS = [("dynamics/circular_dynamics.py", """        if dist_center < self.influence_radius:
            weight = 1

        elif dist_center""", """        if dist_center""")]
DEMO = '''
import numpy as np
from vartools.states import ObjectPose
from vartools.dynamical_systems import LinearSystem
from nonlinear_avoidance.dynamics.circular_dynamics import DynamicDynamics, CircularRotationDynamics
base = LinearSystem(attractor_position=np.array([9., 0.]), maximum_velocity=1.)
for d in (0., .5, 1.9, 2.5, 3.9, 5.):
    m = DynamicDynamics(CircularRotationDynamics(pose=ObjectPose(position=np.zeros(2))), base, influence_radius=2., frequency=100.)
    m.update_base(np.array([0., d]))
    step = np.linalg.norm(m.position) * 100
    assert step <= np.linalg.norm(base.evaluate(np.zeros(2))) + 1e-9, (d, step)
'''
