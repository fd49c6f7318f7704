ID, PROPERTY = "C10-padded-record", "C10"
NEEDS = "a run which is stopped early because it reached the collision condition"
BREAKS = "the record of a run that stopped early is padded to full length, so it is counted as converged and averages over positions nobody visited"
EDITS = [("comparison/comparison_multiobstacle_vectorfield.py", """            print(f"Converged at it={ii}")
            return positions[:, :ii]""", """            print(f"Converged at it={ii}")
            return positions""")]
DEMO = '''
import numpy as np
from nonlinear_avoidance.comparison.comparison_multiobstacle_vectorfield import integrate_trajectory
p = integrate_trajectory(lambda x: np.array([1., 0.]), np.zeros(2), it_max=100, delta_time=.01, collision_functor=lambda x: x[0] > .2)
assert p.shape[1] < 100, "a run that stopped is recorded as a complete one"
assert np.all(np.diff(p[0]) > 0)
'''
