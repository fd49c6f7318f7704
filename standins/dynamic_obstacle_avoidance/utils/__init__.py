import numpy as np
from numpy import linalg as LA


def compute_weights(distMeas, N=None, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2):
    """Importance of each obstacle; sums up to one."""
    distMeas = np.array(distMeas, dtype=float)
    if not distMeas.shape[0]:
        return np.zeros(0)
    critical = distMeas <= distMeas_lowerLimit
    if np.any(critical):
        return critical * 1.0 / np.sum(critical)
    weight = (1.0 / (distMeas - distMeas_lowerLimit)) ** weightPow
    if not np.sum(weight):
        return np.ones(distMeas.shape) / distMeas.shape[0]
    return weight / np.sum(weight)


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0):
    gamma_array = np.array(gamma_array, dtype=float)
    return np.maximum(1.0 / np.maximum(gamma_array, 1.0), 0) ** power_value


def get_relative_obstacle_velocity(
    position,
    obstacle_list,
    E_orth=None,
    weights=None,
    ind_obstacles=None,
    gamma_list=None,
    cut_off_gamma=1e4,
    **kwargs,
):
    """Weighted obstacle velocity at 'position'."""
    dimension = position.shape[0]
    relevant = (
        np.arange(len(obstacle_list))
        if ind_obstacles is None
        else np.arange(len(obstacle_list))[ind_obstacles]
    )
    velocity = np.zeros(dimension)
    for it, it_obs in enumerate(relevant):
        obs = obstacle_list[it_obs]
        twist = getattr(obs, "twist", None)
        if twist is None:
            continue
        local = np.array(twist.linear, dtype=float)
        arm = position - obs.center_position
        if twist.angular is not None:
            if dimension == 2:
                local = local + float(twist.angular) * np.array([-arm[1], arm[0]])
            elif np.any(twist.angular):
                local = local + np.cross(twist.angular, arm)
        gamma = 1.0 if gamma_list is None else gamma_list[it]
        velocity = velocity + weights[it] * local / max(gamma, 1.0)
    return velocity


def get_tangents2ellipse(*args, **kwargs):
    raise NotImplementedError()


def get_reference_weight(*args, **kwargs):
    raise NotImplementedError()
