import copy
from dataclasses import dataclass
from typing import Optional, Union

import numpy as np
from scipy.spatial.transform import Rotation


class Pose:
    """Position and orientation (2-D: angle [rad], 3-D: scipy Rotation)."""

    def __init__(self, position=None, orientation=None, dimension=None):
        if position is None:
            position = np.zeros(2 if dimension is None else dimension)
        self.position = np.array(position, dtype=float)
        if orientation is None:
            if self.dimension == 2:
                orientation = 0.0
            elif self.dimension == 3:
                orientation = Rotation.from_quat([0.0, 0.0, 0.0, 1.0])
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        return cls(position=np.zeros(dimension))

    def __repr__(self):
        return f"{type(self).__name__}({self.position}, {self.orientation})"

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        if self.dimension == 2:
            cos_, sin_ = np.cos(self.orientation), np.sin(self.orientation)
            return np.array([[cos_, -sin_], [sin_, cos_]])
        if self.dimension == 3 and self.orientation is not None:
            return self.orientation.as_matrix()
        return np.eye(self.dimension)

    def _apply(self, vectors, inverse=False):
        """'vectors' is (dim,) or (dim, n)"""
        matrix = self.rotation_matrix
        if inverse:
            matrix = matrix.T
        return matrix @ np.asarray(vectors, dtype=float)

    def transform_direction_from_relative(self, direction):
        return self._apply(direction)

    def transform_direction_to_relative(self, direction):
        return self._apply(direction, inverse=True)

    transform_directions_from_relative = transform_direction_from_relative
    transform_directions_to_relative = transform_direction_to_relative

    def transform_position_from_relative(self, position):
        rotated = self._apply(position)
        return rotated + (
            self.position if rotated.ndim == 1 else self.position[:, np.newaxis]
        )

    def transform_position_to_relative(self, position):
        position = np.asarray(position, dtype=float)
        offset = self.position if position.ndim == 1 else self.position[:, np.newaxis]
        return self._apply(position - offset, inverse=True)

    transform_positions_from_relative = transform_position_from_relative
    transform_positions_to_relative = transform_position_to_relative

    def transform_orientation_from_relative(self, orientation):
        if self.dimension == 2:
            return self.orientation + orientation
        if self.orientation is None:
            return orientation
        return self.orientation * orientation

    def transform_orientation_to_relative(self, orientation):
        if self.dimension == 2:
            return orientation - self.orientation
        if self.orientation is None:
            return orientation
        return self.orientation.inv() * orientation

    def transform_linear_velocity_from_relative(self, linear_velocity):
        return self._apply(linear_velocity)

    def transform_linear_velocity_to_relative(self, linear_velocity):
        return self._apply(linear_velocity, inverse=True)

    def transform_pose_from_relative(self, pose):
        return type(pose)(
            position=self.transform_position_from_relative(pose.position),
            orientation=self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return type(pose)(
            position=self.transform_position_to_relative(pose.position),
            orientation=self.transform_orientation_to_relative(pose.orientation),
        )

    transform_from_relative = transform_position_from_relative
    transform_to_relative = transform_position_to_relative


ObjectPose = Pose


@dataclass
class Twist:
    linear: np.ndarray
    angular: Optional[Union[float, np.ndarray]] = None

    def __post_init__(self):
        self.linear = np.array(self.linear, dtype=float)

    @classmethod
    def create_trivial(cls, dimension):
        return cls(linear=np.zeros(dimension), angular=0.0)

    @property
    def dimension(self):
        return self.linear.shape[0]


ObjectTwist = Twist


@dataclass
class Stamp:
    seconds: float = 0
    nanoseconds: float = 0
