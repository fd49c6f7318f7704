import math

import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems._base import DynamicalSystem
from vartools.directional_space import get_angle_space_inverse


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity):
        velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=velocity.shape[0])
        self.constant_velocity = velocity

    def evaluate(self, position=None):
        return np.copy(self.constant_velocity)


class LinearSystem(DynamicalSystem):
    """xdot = A (x - x_attr), saturated at maximum_velocity."""

    def __init__(
        self,
        attractor_position=None,
        A_matrix=None,
        maximum_velocity=None,
        dimension=None,
        distance_decrease=1.0,
        scaling_factor=1.0,
        center_position=None,
    ):
        if attractor_position is None:
            if A_matrix is not None:
                dimension = np.asarray(A_matrix).shape[0]
            attractor_position = np.zeros(dimension or 2)
        super().__init__(
            attractor_position=np.array(attractor_position, dtype=float),
            maximum_velocity=maximum_velocity,
        )
        self.A_matrix = (
            -np.eye(self.dimension) * scaling_factor
            if A_matrix is None
            else np.array(A_matrix)
        )
        self.distance_decrease = distance_decrease

    def evaluate(self, position):
        velocity = self.A_matrix @ (position - self.attractor_position)
        if self.distance_decrease and self.maximum_velocity is not None:
            norm = LA.norm(velocity)
            dist = LA.norm(position - self.attractor_position)
            if norm:
                desired = min(
                    self.maximum_velocity,
                    self.maximum_velocity * dist / self.distance_decrease,
                )
                return velocity / norm * desired
        return self.limit_velocity(velocity)

    def evaluate_at_position(self, position):
        return self.evaluate(position)


class LocallyRotated(DynamicalSystem):
    def __init__(
        self,
        max_rotation,
        influence_pose=None,
        influence_radius=1.0,
        attractor_position=None,
        maximum_velocity=None,
        delta_rotation=None,
    ):
        self.max_rotation = np.atleast_1d(np.array(max_rotation, dtype=float))
        if attractor_position is None:
            attractor_position = np.zeros(self.max_rotation.shape[0] + 1)
        super().__init__(
            attractor_position=np.array(attractor_position, dtype=float),
            maximum_velocity=maximum_velocity,
        )
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius

    def evaluate(self, position):
        direction = self.attractor_position - position
        dist_attr = LA.norm(direction)
        if not dist_attr:
            return np.zeros_like(direction)
        dist = LA.norm(position - self.influence_pose.position)
        weight = math.exp(-((dist / self.influence_radius) ** 2))
        center_dist = LA.norm(self.influence_pose.position - self.attractor_position)
        if center_dist:
            weight = weight * min(1.0, dist_attr / center_dist)
        velocity = get_angle_space_inverse(
            weight * self.max_rotation, null_direction=direction
        )
        return self.limit_velocity(velocity * dist_attr)


class QuadraticAxisConvergence(DynamicalSystem):
    def __init__(
        self,
        attractor_position=None,
        main_axis=0,
        conv_pow=2,
        stretching_factor=1.0,
        maximum_velocity=None,
        dimension=None,
    ):
        if attractor_position is None:
            attractor_position = np.zeros(dimension or 2)
        super().__init__(
            attractor_position=np.array(attractor_position, dtype=float),
            maximum_velocity=maximum_velocity,
        )
        self.main_axis = main_axis
        self.conv_pow = conv_pow
        self.stretching_factor = np.broadcast_to(
            np.array(stretching_factor, dtype=float), (self.dimension,)
        )

    def evaluate(self, position):
        relative = position - self.attractor_position
        velocity = -self.stretching_factor * np.copysign(
            np.abs(relative) ** self.conv_pow, relative
        )
        velocity[self.main_axis] = (
            -self.stretching_factor[self.main_axis] * relative[self.main_axis]
        )
        return self.limit_velocity(velocity)


class AxesFollowingDynamics(QuadraticAxisConvergence):
    def __init__(self, center_position=None, main_direction=None, **kwargs):
        super().__init__(attractor_position=center_position, **kwargs)
        self.main_direction = np.array(main_direction, dtype=float)

    def evaluate(self, position):
        relative = position - self.attractor_position
        main = self.main_direction / LA.norm(self.main_direction)
        lateral = relative - (relative @ main) * main
        return self.limit_velocity(main - lateral)


class CircularStable(DynamicalSystem):
    def __init__(
        self,
        radius=1.0,
        factor_controler=1.0,
        direction=1,
        main_axis=None,
        angular_velocity=1.0,
        attractor_position=None,
        constant_velocity=None,
        maximum_velocity=None,
        dimension=2,
        **kwargs,
    ):
        super().__init__(
            attractor_position=np.zeros(2)
            if attractor_position is None
            else np.array(attractor_position, dtype=float),
            maximum_velocity=maximum_velocity,
        )
        self.radius = radius
        self.factor_controler = factor_controler
        self.direction = direction

    def evaluate(self, position):
        relative = position - self.attractor_position
        norm = LA.norm(relative)
        if not norm:
            return np.zeros_like(relative)
        tangent = self.direction * np.array([-relative[1], relative[0]])
        radial = self.factor_controler * (self.radius - norm) * relative / norm
        return self.limit_velocity(tangent + radial)


class SpiralStable(LinearSystem):
    def __init__(self, complex_values=None, attractor_position=None, **kwargs):
        super().__init__(
            attractor_position=attractor_position,
            A_matrix=np.array([[-1.0, -2.0], [2.0, -1.0]]),
        )


class BifurcationSpiral(SpiralStable):
    pass


class CircularLinear(SpiralStable):
    pass


class SinusAttractorSystem(DynamicalSystem):
    def __init__(
        self,
        attractor_position=None,
        maximum_velocity=None,
        fast_axis=0,
        trafo_parameter=1.0,
        **kwargs,
    ):
        super().__init__(
            attractor_position=np.zeros(2)
            if attractor_position is None
            else np.array(attractor_position, dtype=float),
            maximum_velocity=maximum_velocity,
        )

    def evaluate(self, position):
        relative = position - self.attractor_position
        angle = 0.5 * math.sin(LA.norm(relative))
        cos_, sin_ = math.cos(angle), math.sin(angle)
        velocity = -np.array([[cos_, -sin_], [sin_, cos_]]) @ relative
        return self.limit_velocity(velocity)


class WavyRotatedDynamics(DynamicalSystem):
    """Globally converging flow with a rotation which oscillates with the distance."""

    def __init__(
        self,
        attractor_position=None,
        pose=None,
        maximum_velocity=None,
        rotation_frequency=1,
        rotation_power=1.0,
        max_rotation=None,
        slowing_distance=1.0,
    ):
        super().__init__(pose=pose, maximum_velocity=maximum_velocity)
        self._attractor_position = np.array(
            attractor_position if attractor_position is not None else pose.position,
            dtype=float,
        )
        self.rotation_frequency = rotation_frequency
        self.rotation_power = rotation_power
        self.max_rotation = math.pi * 0.5 if max_rotation is None else max_rotation
        self.slowing_distance = slowing_distance

    def evaluate(self, position):
        relative = position - self.attractor_position
        dist = LA.norm(relative)
        if not dist:
            return np.zeros_like(relative)
        angle = math.sin(dist * self.rotation_frequency)
        angle = math.copysign(
            min(abs(angle) ** self.rotation_power, 1.0) * self.max_rotation, angle
        )
        cos_, sin_ = math.cos(angle), math.sin(angle)
        vmax = 1.0 if self.maximum_velocity is None else self.maximum_velocity
        speed = vmax * min(1.0, dist / self.slowing_distance)
        return -np.array([[cos_, -sin_], [sin_, cos_]]) @ relative / dist * speed
