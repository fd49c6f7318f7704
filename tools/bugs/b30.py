ID, PROPERTY = "C09-replaced-in-place", "C09"
NEEDS = "an obstacle replaced by another one at the very same place (a re-fitted shape) and a query before the next planning"
BREAKS = "the motion planned for the removed obstacle is kept for its replacement"
EDITS = [("rotation_container.py", """        self._convergence_dynamics[key] = None
        self.convergence_radiuses[key] = None
""", """        planned = self._convergence_dynamics[key]
        if not (
            isinstance(planned, LocallyRotated)
            and np.allclose(planned.influence_pose.position, value.center_position)
        ):
            self._convergence_dynamics[key] = None
        self.convergence_radiuses[key] = None
""")]
DEMO = '''
import numpy as np
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.rotation_container import RotationContainer
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
from vartools.states import ObjectPose
def obs(a):
    return Ellipse(center_position=np.array([1.0, 2.0]), axes_length=np.array([a, a]))
ds = SimpleCircularDynamics(radius=2.0, pose=ObjectPose(position=np.array([0.3, 0.1])))
c = RotationContainer()
c.append(obs(0.5))
c.set_convergence_directions(nonlinear_dynamics=ds)
c[0] = obs(3.0)
try:
    v = c.get_convergence_direction(np.array([2.5, 2.5]), 0)
except Exception:
    v = None
if v is not None:
    fresh = RotationContainer(); fresh.append(obs(3.0)); fresh.set_convergence_directions(nonlinear_dynamics=ds)
    assert np.allclose(v, fresh.get_convergence_direction(np.array([2.5, 2.5]), 0)), v
'''
