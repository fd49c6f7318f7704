ID, PROPERTY = "C05-full-weight", "C05"
NEEDS = "a location at which one obstacle alone takes the full weight"
BREAKS = "a weight of exactly one is spread like the others and divides by zero: the command is not a number or the evaluation aborts"
EDITS = [("multi_obstacle_avoider.py", "if np.any(ind_max := np.array(weights) >= 1.0):", "if np.any(ind_max := np.array(weights) > 1.0):")]
DEMO = '''
import numpy as np
from nonlinear_avoidance.multi_obstacle_avoider import get_limited_weights_to_max_sum
w, s = get_limited_weights_to_max_sum([1.0, 0.3])
assert np.all(np.isfinite(w)) and np.isclose(np.sum(w), 1), w
'''
