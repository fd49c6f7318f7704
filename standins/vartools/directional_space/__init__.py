import math
import warnings

import numpy as np
from numpy import linalg as LA

from vartools.linalg import get_orthogonal_basis


def get_angle_from_vector(direction, base):
    direction = np.asarray(direction, dtype=float)
    norm = LA.norm(direction)
    if not norm:
        return np.zeros(direction.shape[0] - 1)
    local = base.T @ (direction / norm)
    tangent = np.copy(local[1:])
    tan_norm = LA.norm(tangent)
    if tan_norm:
        return tangent / tan_norm * math.acos(max(-1.0, min(1.0, local[0])))
    if local[0] < 0:
        tangent[0] = math.pi
    return tangent


def get_vector_from_angle(angle, base):
    angle = np.atleast_1d(np.asarray(angle, dtype=float))
    norm = LA.norm(angle)
    if not norm:
        return np.copy(base[:, 0])
    local = np.hstack(([math.cos(norm)], math.sin(norm) * angle / norm))
    return base @ local


def get_angle_space(
    direction, null_direction=None, null_matrix=None, normalize=None
):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return get_angle_from_vector(direction, null_matrix)


def get_angle_space_inverse(dir_angle_space, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return get_vector_from_angle(dir_angle_space, null_matrix)


def get_angle_space_of_array(
    directions, positions=None, func_vel_default=None, null_direction=None,
    null_direction_abs=None,
):
    """directions: (dim, n)"""
    directions = np.asarray(directions, dtype=float)
    dim, n_samples = directions.shape
    out = np.zeros((dim - 1, n_samples))
    for ii in range(n_samples):
        if null_direction_abs is not None:
            null = null_direction_abs
        elif null_direction is not None:
            null = null_direction
        else:
            null = func_vel_default(positions[:, ii])
        if not LA.norm(null):
            continue
        out[:, ii] = get_angle_space(directions[:, ii], null_direction=null)
    return out


def get_angle_space_inverse_of_array(
    vecs_angle_space, positions=None, func_vel_default=None, null_direction_abs=None
):
    dim_, n_samples = vecs_angle_space.shape
    out = np.zeros((dim_ + 1, n_samples))
    for ii in range(n_samples):
        null = (
            null_direction_abs
            if null_direction_abs is not None
            else func_vel_default(positions[:, ii])
        )
        if not LA.norm(null):
            continue
        out[:, ii] = get_angle_space_inverse(
            vecs_angle_space[:, ii], null_direction=null
        )
    return out


def get_directional_weighted_sum(
    null_direction,
    weights,
    directions,
    unit_direction=None,
    total_weight=1,
    normalize=True,
    normalize_reference=True,
):
    """Weighted mean of directions (columns) in the angle space of null_direction."""
    null_direction = np.array(null_direction, dtype=float)
    weights = np.array(weights, dtype=float)
    directions = np.array(directions, dtype=float)

    norms = LA.norm(directions, axis=0)
    ind = np.logical_and(weights > 0, norms > 0)
    weights, directions, norms = weights[ind], directions[:, ind], norms[ind]

    null_norm = LA.norm(null_direction)
    if not null_norm:
        raise ValueError("Null direction has zero length.")
    null_direction = null_direction / null_norm

    if not directions.shape[1]:
        return null_direction

    directions = directions / norms
    if total_weight < 1:
        weights = weights / np.sum(weights) * total_weight

    if directions.shape[1] == 1 and weights[0] >= 1:
        return directions[:, 0]

    base = get_orthogonal_basis(null_direction)
    angle = np.zeros(null_direction.shape[0] - 1)
    for ii in range(directions.shape[1]):
        angle = angle + weights[ii] * get_angle_from_vector(directions[:, ii], base)
    return get_vector_from_angle(angle, base)


def get_directional_weighted_sum_from_unit_directions(base, weights, unit_directions):
    angle = np.zeros(base.shape[0] - 1)
    for ww, unit in zip(weights, unit_directions):
        angle = angle + ww * unit.as_angle()
    return UnitDirection(base).from_angle(angle)


def fast_directional_vector_addition(vector1, vector2, weight):
    """Rotate from vector1 (weight=0) to vector2 (weight=1)"""
    vector1 = np.asarray(vector1, dtype=float)
    vector2 = np.asarray(vector2, dtype=float)
    dot = max(-1.0, min(1.0, float(np.dot(vector1, vector2))))
    angle = math.acos(dot)
    perp = vector2 - dot * vector1
    if not (norm := LA.norm(perp)):
        return vector1
    return math.cos(weight * angle) * vector1 + math.sin(weight * angle) * perp / norm


class UnitDirection:
    def __init__(self, base):
        base = np.asarray(base)
        self.base = get_orthogonal_basis(base) if base.ndim == 1 else base
        self._angle = None
        self._vector = None

    @property
    def null_direction(self):
        return self.base[:, 0]

    @property
    def dimension(self):
        return self.base.shape[0]

    def from_angle(self, value):
        self._angle = np.array(value, dtype=float)
        self._vector = None
        return self

    def from_vector(self, value):
        value = np.array(value, dtype=float)
        self._vector = value / LA.norm(value)
        self._angle = None
        return self

    def as_angle(self):
        if self._angle is None:
            self._angle = get_angle_from_vector(self._vector, self.base)
        return self._angle

    def as_vector(self):
        if self._vector is None:
            self._vector = get_vector_from_angle(self._angle, self.base)
        return self._vector

    def norm(self):
        return LA.norm(self.as_angle())

    def transform_to_base(self, base):
        return UnitDirection(base).from_vector(self.as_vector())

    def invert_normal(self):
        base = np.copy(self.base)
        base[:, 0] = -base[:, 0]
        return UnitDirection(base).from_vector(self.as_vector())

    def get_distance_to(self, other):
        return LA.norm(self.as_angle() - other.as_angle())

    def __add__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() + other.as_angle())

    def __sub__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() - other.as_angle())

    def __mul__(self, factor):
        return UnitDirection(self.base).from_angle(self.as_angle() * factor)

    __rmul__ = __mul__

    def __truediv__(self, factor):
        return UnitDirection(self.base).from_angle(self.as_angle() / factor)


DirectionBase = UnitDirection
