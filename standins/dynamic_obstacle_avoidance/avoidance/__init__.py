import numpy as np
from numpy import linalg as LA

from dynamic_obstacle_avoidance.utils import compute_weights


class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment

    def evaluate(self, position):
        return self.avoid(position)


def obs_avoidance_interpolation_moving(position, initial_velocity, obs=(), **kwargs):
    """Reference-direction modulation (baseline of the comparisons)."""
    velocity = np.array(initial_velocity, dtype=float)
    if not len(obs):
        return velocity
    gammas = np.array([oo.get_gamma(position, in_global_frame=True) for oo in obs])
    weights = compute_weights(gammas)
    mean = np.zeros_like(velocity)
    for ii, oo in enumerate(obs):
        normal = oo.get_normal_direction(position, in_global_frame=True)
        inv = 1.0 / max(gammas[ii], 1.0)
        along = normal * (normal @ velocity)
        tangent = velocity - along
        mean = mean + weights[ii] * (along * (1 - inv) + tangent * (1 + inv))
    return mean


def obstacle_avoidance_rotational(*args, **kwargs):
    from nonlinear_avoidance.avoidance import obstacle_avoidance_rotational as func

    return func(*args, **kwargs)


class ModulationAvoider(BaseAvoider):
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        super().__init__(initial_dynamics, obstacle_environment)

    def evaluate(self, position):
        return self.avoid(position, self.initial_dynamics.evaluate(position))

    def avoid(self, position, velocity=None):
        if velocity is None:
            velocity = self.initial_dynamics.evaluate(position)
        return obs_avoidance_interpolation_moving(
            position, velocity, obs=self.obstacle_environment
        )
