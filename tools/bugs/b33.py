ID, PROPERTY = "C04-neighbour-normal", "C04"
NEEDS = "a finite cut-off with an obstacle registered earlier that is beyond it, so positions in the list of close obstacles shift"
BREAKS = "the surface normal is taken from another obstacle, and the robot is led into the close one"
EDITS = [("avoidance/rotational_avoider.py", """            normal_dirs[:, it] = obstacle_list[it_obs].get_normal_direction(""", """            normal_dirs[:, it] = obstacle_list[it].get_normal_direction(""")]
DEMO = '''
import numpy as np
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer
ds = LinearSystem(attractor_position=np.array([4.0, 0.0]), maximum_velocity=1.0)
far = Ellipse(center_position=np.array([-1.0, -30.0]), axes_length=np.array([1.0, 1.0]))
near = Ellipse(center_position=np.array([0.0, 0.1]), axes_length=np.array([2.0, 2.0]))
c = RotationContainer(); c.append(far); c.append(near)
c.set_convergence_directions(converging_dynamics=ds)
a = RotationalAvoider(initial_dynamics=ds, obstacle_environment=c, convergence_system=ds, cut_off_gamma=10)
x = np.array([-4.0, 0.3])
for _ in range(3000):
    x = x + 0.01 * a.avoid(x)
    assert near.get_gamma(x, in_global_frame=True) > 0.99, x
assert np.linalg.norm(x - 4 * np.eye(2)[0]) < 0.2, x
'''
