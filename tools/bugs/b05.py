ID, PROPERTY = "C09-stale-plan", "C09"
NEEDS = "planning, then planning again for another nominal motion"
BREAKS = "obstacles which have a local motion keep it when the nominal motion changes"
EDITS = [("rotation_container.py", """        for it_obs in range(self.n_obstacles):
            position = self[it_obs].center_position
            relative_position = position - attractor
""", """        for it_obs in range(self.n_obstacles):
            if self._convergence_dynamics[it_obs] is not None:
                # Already planned
                continue

            position = self[it_obs].center_position
            relative_position = position - attractor
""")]
DEMO = '''
import numpy as np
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.rotation_container import RotationContainer
c = RotationContainer()
for x in (1., 4.):
    c.append(EllipseWithAxes(center_position=np.array([x, 2.]), axes_length=np.array([1., 1.])))
c.set_convergence_directions(LinearSystem(attractor_position=np.array([5., 0.])))
c.append(EllipseWithAxes(center_position=np.array([-3., 2.]), axes_length=np.array([1., 1.])))
goal = np.array([-6., 1.])
c.set_convergence_directions(LinearSystem(attractor_position=goal))
for i in range(3):
    v = c.get_convergence_direction(goal, it_obs=i)
    assert np.linalg.norm(v) < 1e-6, f"motion {i} does not stop at the goal: {v}"
'''
