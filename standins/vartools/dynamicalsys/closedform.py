import numpy as np


def evaluate_linear_dynamical_system(
    position, attractor_position=None, center_position=None, dt=0.01, max_velocity=None
):
    if attractor_position is None:
        attractor_position = center_position
    if attractor_position is None:
        attractor_position = np.zeros(len(position))
    velocity = np.asarray(attractor_position) - np.asarray(position)
    norm = np.linalg.norm(velocity)
    if max_velocity is not None and norm > max_velocity:
        velocity = velocity / norm * max_velocity
    return velocity
