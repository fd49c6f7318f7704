ID, PROPERTY = "C11-past-the-end", "C11"
NEEDS = "a robot that is pushed past the end of a way-point path"
BREAKS = "behind the end of the path the last segment keeps its full weight, so a pushed robot drives on and never comes back to the end"
EDITS = [("dynamics/segmented_dynamics.py", "        if dot_prod < 0:\n", "        if dot_prod < 0 and np.min(distances) > 3.0:\n")]
DEMO = '''
import numpy as np
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points
d = create_segment_from_points([[0., 0.], [4., 0.]], margin=.1)
x = d.attractor_position + np.array([.8, 0.])
for _ in range(3000):
    x = x + .01 * d.evaluate(x)
assert np.linalg.norm(x - d.attractor_position) < .1, f"settled at {x} instead of {d.attractor_position}"
'''
