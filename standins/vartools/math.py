from enum import Enum, auto
from math import sqrt

import numpy as np
from numpy import linalg as LA


class IntersectionType(Enum):
    CLOSE = auto()
    FAR = auto()
    BOTH = auto()


CircleIntersectionType = IntersectionType


def get_intersection_with_circle(
    start_position,
    direction,
    radius,
    only_positive=True,
    intersection_type=None,
):
    """Intersection of the ray / line with the origin-centred sphere.

    only_positive: the (far) intersection in the direction of the ray, or None
    otherwise: both intersections as columns, or None
    intersection_type: FAR / CLOSE / BOTH; overrules 'only_positive'."""
    start_position = np.asarray(start_position, dtype=float)
    direction = np.asarray(direction, dtype=float)
    AA = np.sum(direction**2)
    BB = 2 * np.dot(direction, start_position)
    CC = np.sum(start_position**2) - radius**2
    DD = BB**2 - 4 * AA * CC
    if DD < 0 or not AA:
        return None
    root = sqrt(DD)
    far = (-BB + root) / (2 * AA)
    close = (-BB - root) / (2 * AA)

    if intersection_type is not None:
        if intersection_type == IntersectionType.FAR:
            return start_position + far * direction
        if intersection_type == IntersectionType.CLOSE:
            return start_position + close * direction
        return np.vstack(
            (start_position + close * direction, start_position + far * direction)
        ).T

    if only_positive:
        if far < 0:
            return None
        return start_position + far * direction

    return np.vstack(
        (start_position + close * direction, start_position + far * direction)
    ).T


def get_intersection_between_line_and_plane(
    line_position,
    line_direction,
    plane_position,
    plane_normal,
    positive_only=False,
    return_line_factor=False,
):
    denom = np.dot(line_direction, plane_normal)
    if not denom:
        return None
    fac = np.dot(plane_position - line_position, plane_normal) / denom
    if positive_only and fac < 0:
        return None
    if return_line_factor:
        return fac
    return line_position + fac * line_direction


def get_numerical_gradient(position, function, delta_magnitude=1e-6):
    dimension = position.shape[0]
    gradient = np.zeros(dimension)
    for ii in range(dimension):
        delta = np.zeros(dimension)
        delta[ii] = delta_magnitude
        gradient[ii] = (function(position + delta) - function(position - delta)) / (
            2 * delta_magnitude
        )
    return gradient


def get_numerical_hessian_fast(*args, **kwargs):
    raise NotImplementedError()


def get_scaled_orthogonal_projection(*args, **kwargs):
    raise NotImplementedError()


def get_numerical_hessian(*args, **kwargs):
    raise NotImplementedError()
