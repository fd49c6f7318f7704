ID, PROPERTY = "C09-roughly-straight", "C09"
NEEDS = "an obstacle at which the nominal motion is inclined to the goal direction by a moderate angle"
BREAKS = "the planned motion of an obstacle ignores inclinations of the nominal motion up to 25 degrees"
EDITS = [("rotation_container.py", "if dot_prod == (-1):", "if dot_prod < (-0.9):")]
DEMO = '''
import numpy as np
from vartools.dynamical_systems import DynamicalSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.rotation_container import RotationContainer
class Inclined(DynamicalSystem):
    def __init__(self, angle, goal):
        super().__init__(dimension=2, attractor_position=goal)
        self.angle = angle
    def evaluate(self, position):
        d = self.attractor_position - position
        c, s = np.cos(self.angle), np.sin(self.angle)
        return np.array([[c, -s], [s, c]]) @ d
for angle in (.1, .3, .6, -1.):
    c = RotationContainer()
    p = np.array([2., 3.])
    c.append(EllipseWithAxes(center_position=p, axes_length=np.array([1., 1.])))
    m = Inclined(angle, np.zeros(2))
    c.set_convergence_directions(m)
    a, b = m.evaluate(p), c.get_convergence_direction(p, it_obs=0)
    cos = a @ b / np.linalg.norm(a) / np.linalg.norm(b)
    assert cos > 1 - 1e-4, (angle, cos)
'''
