"""Star-shaped obstacles with analytic geometry."""
import math
import sys
from abc import ABC, abstractmethod

import numpy as np
from numpy import linalg as LA

from scipy.spatial.transform import Rotation

from vartools.states import Pose, Twist

# Called on every geometric query when set (the simulator's fault seam: a
# perception back end which fails, stalls or returns late).
QUERY_HOOK = None


def _query(obstacle, name):
    if QUERY_HOOK is not None:
        QUERY_HOOK(obstacle, name)


class Obstacle(ABC):
    id_counter = 0

    def __init__(
        self,
        pose=None,
        center_position=None,
        orientation=None,
        twist=None,
        linear_velocity=None,
        angular_velocity=None,
        tail_effect=True,
        has_sticky_surface=True,
        repulsion_coeff=1,
        reactivity=1,
        margin_absolut=0.0,
        is_boundary=False,
        distance_scaling=1.0,
        reference_point=None,
        name=None,
        dimension=None,
        **kwargs,
    ):
        if pose is not None:
            self.pose = pose
        else:
            if center_position is None:
                center_position = np.zeros(dimension or 2)
            self.pose = Pose(position=center_position, orientation=orientation)

        if twist is not None:
            self.twist = twist
        else:
            dim = self.pose.dimension
            self.twist = Twist(
                linear=np.zeros(dim) if linear_velocity is None else linear_velocity,
                angular=angular_velocity
                if angular_velocity is not None
                else (0.0 if dim == 2 else None),
            )
        self.tail_effect = tail_effect
        self.has_sticky_surface = has_sticky_surface
        self.margin_absolut = margin_absolut
        self.is_boundary = is_boundary
        self.distance_scaling = distance_scaling
        self.name = name
        self._shape = None
        self._reference_point = np.zeros(self.pose.dimension)
        if reference_point is not None:
            self._reference_point = np.array(reference_point, dtype=float)
        self._relative_reference_point = None
        self._relative_gamma = None

    # --- state
    @property
    def dimension(self):
        return self.pose.dimension

    @property
    def dim(self):
        return self.dimension

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = np.array(value, dtype=float)

    @property
    def position(self):
        return self.pose.position

    @position.setter
    def position(self, value):
        self.pose.position = np.array(value, dtype=float)

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def linear_velocity(self):
        return self.twist.linear

    @linear_velocity.setter
    def linear_velocity(self, value):
        self.twist.linear = value

    @property
    def angular_velocity(self):
        return self.twist.angular

    @angular_velocity.setter
    def angular_velocity(self, value):
        self.twist.angular = value

    def transform_position_to_relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_position_from_relative(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_vector_to_relative(self, vector):
        return self.pose.transform_direction_to_relative(vector)

    # --- reference point
    @property
    def reference_point(self):
        return self._reference_point

    @reference_point.setter
    def reference_point(self, value):
        self._reference_point = np.array(value, dtype=float)

    @property
    def local_reference_point(self):
        return self.reference_point

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self.reference_point)

    def set_reference_point(self, position, in_global_frame=False):
        position = np.array(position, dtype=float)
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self.reference_point = position

    def get_reference_point(self, in_global_frame=False):
        if in_global_frame:
            return self.global_reference_point
        return np.copy(self.reference_point)

    @property
    def global_relative_reference_point(self):
        if self._relative_reference_point is None:
            return self.global_reference_point
        return self.pose.transform_position_from_relative(
            self._relative_reference_point
        )

    @global_relative_reference_point.setter
    def global_relative_reference_point(self, value):
        self._relative_reference_point = self.pose.transform_position_to_relative(
            value
        )

    def reset_relative_reference(self):
        self._relative_reference_point = None
        self._relative_gamma = None

    def set_relative_gamma_at_position(self, position, relative_gamma):
        self._relative_gamma = (np.array(position), relative_gamma)

    def get_reference_direction(self, position, in_global_frame=False):
        """Unit vector from position towards the reference point."""
        _query(self, "reference_direction")
        if in_global_frame:
            direction = self.global_reference_point - position
        else:
            direction = self.reference_point - position
        norm = LA.norm(direction)
        if not norm:
            direction = np.zeros(self.dimension)
            direction[0] = 1.0
            return direction
        return direction / norm

    # --- geometry in the local frame (to be specialised)
    def _local_ray_radius(self, direction, margin):
        """Distance centre -> surface, along the (local, unit) direction."""
        raise NotImplementedError()

    def _local_normal(self, position, margin):
        """Outward pointing normal at the (local) position."""
        raise NotImplementedError()

    def _local_distance(self, position, margin):
        """Distance to the surface (outside only)"""
        norm = LA.norm(position)
        return norm - self._local_ray_radius(position / norm, margin)

    def _margin(self, margin_absolut=None):
        return self.margin_absolut if margin_absolut is None else margin_absolut

    def _to_local(self, position, in_global_frame):
        position = np.asarray(position, dtype=float)
        if in_global_frame:
            return self.pose.transform_position_to_relative(position)
        return position

    def get_local_radius(self, position, in_global_frame=False, margin_absolut=None):
        local = self._to_local(position, in_global_frame)
        norm = LA.norm(local)
        if not norm:
            local = np.eye(self.dimension)[0]
            norm = 1.0
        return self._local_ray_radius(local / norm, self._margin(margin_absolut))

    def get_point_on_surface(self, position, in_global_frame=False, **kwargs):
        local = self._to_local(position, in_global_frame)
        norm = LA.norm(local)
        direction = local / norm if norm else np.eye(self.dimension)[0]
        point = direction * self._local_ray_radius(direction, self._margin())
        if in_global_frame:
            return self.pose.transform_position_from_relative(point)
        return point

    def get_gamma(
        self,
        position,
        in_global_frame=False,
        in_obstacle_frame=None,
        margin_absolut=None,
        relative_gamma=True,
        is_boundary=None,
        **kwargs,
    ):
        """1 on the surface; non-boundary: > 1 outside, < 1 inside."""
        _query(self, "gamma")
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        boundary = self.is_boundary if is_boundary is None else is_boundary
        local = self._to_local(position, in_global_frame)
        margin = self._margin(margin_absolut)

        if (
            boundary
            and relative_gamma
            and self._relative_gamma is not None
            and in_global_frame
            and np.allclose(self._relative_gamma[0], position)
        ):
            return self._relative_gamma[1]

        with np.errstate(over="ignore"):
            norm = LA.norm(local)
        if not math.isfinite(norm):
            # Points 'at infinity'
            return np.float64(0.0 if boundary else sys.float_info.max)
        if not norm:
            return np.float64(sys.float_info.max if boundary else 0.0)
        radius = self._local_ray_radius(local / norm, margin)
        if boundary:
            return radius / norm
        if norm < radius:
            return norm / radius
        return 1.0 + self.distance_scaling * max(
            0.0, self._local_distance(local, margin)
        )

    def is_inside(self, position, in_global_frame=False, **kwargs):
        return self.get_gamma(position, in_global_frame=in_global_frame) <= 1

    def get_normal_direction(
        self, position, in_global_frame=False, in_obstacle_frame=None, **kwargs
    ):
        """Unit normal which points into the free space."""
        _query(self, "normal")
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        local = self._to_local(position, in_global_frame)
        if LA.norm(local):
            normal = self._local_normal(local, self._margin())
        else:
            normal = np.eye(self.dimension)[0]
        if self.is_boundary:
            normal = -normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def get_intersection_with_surface(
        self,
        start_position=None,
        direction=None,
        in_global_frame=False,
        edge_point=None,
        margin_absolut=None,
        intersection_type=None,
        **kwargs,
    ):
        """First surface point on the ray; None if the line misses the obstacle."""
        _query(self, "intersection")
        margin = self._margin(margin_absolut)
        if start_position is None:
            start_position = edge_point
        if start_position is None:
            start = np.zeros(self.dimension)
        else:
            start = self._to_local(start_position, in_global_frame)
        direction = np.asarray(direction, dtype=float)
        if in_global_frame:
            direction = self.pose.transform_direction_to_relative(direction)
        factors = self._local_ray_intersections(start, direction, margin)
        if factors is None:
            return None
        low, high = factors
        point = start + direction * (low if low > 0 else high)
        if in_global_frame:
            return self.pose.transform_position_from_relative(point)
        return point

    _get_intersection_with_surface = get_intersection_with_surface

    def _local_ray_intersections(self, start, direction, margin):
        raise NotImplementedError()

    def get_characteristic_length(self):
        return float(np.mean(self.axes_length))

    get_reference_length = get_characteristic_length

    def get_maximal_distance(self):
        return float(np.max(self.axes_length))

    # --- drawing helpers
    def get_boundary_xy(self, in_global_frame=True, n_points=60):
        angles = np.linspace(0, 2 * math.pi, n_points)
        points = np.array(
            [
                np.array([math.cos(aa), math.sin(aa)])
                * self._local_ray_radius(
                    np.array([math.cos(aa), math.sin(aa)]), self._margin()
                )
                for aa in angles
            ]
        ).T
        if in_global_frame:
            points = self.pose.transform_position_from_relative(points)
        return points

    def create_shape(self):
        from shapely.geometry import Polygon

        self._shape = Polygon(self.get_boundary_xy().T)

    @property
    def shape(self):
        if self._shape is None:
            self.create_shape()
        return self._shape

    @shape.setter
    def shape(self, value):
        self._shape = value

    @property
    def boundary_points_global_closed(self):
        return self.get_boundary_xy()

    def draw_obstacle(self, *args, **kwargs):
        return None

    def update_deforming_obstacle(self, *args, **kwargs):
        return None

    def is_reference_point_inside(self):
        return self.get_gamma(self.reference_point, in_global_frame=False) < 1


class _EllipsoidBase(Obstacle):
    """Ellipsoid, geometry from the (margin-inflated) semi axes."""

    def _semiaxes(self, margin):
        raise NotImplementedError()

    def _local_ray_radius(self, direction, margin):
        return 1.0 / math.sqrt(np.sum((direction / self._semiaxes(margin)) ** 2))

    def _local_normal(self, position, margin):
        normal = position / self._semiaxes(margin) ** 2
        return normal / LA.norm(normal)

    def _local_ray_intersections(self, start, direction, margin):
        semi = self._semiaxes(margin)
        ss, dd = start / semi, direction / semi
        AA, BB, CC = dd @ dd, 2 * (ss @ dd), ss @ ss - 1.0
        disc = BB**2 - 4 * AA * CC
        if disc < 0 or not AA:
            return None
        root = math.sqrt(disc)
        return (-BB - root) / (2 * AA), (-BB + root) / (2 * AA)


class Ellipse(_EllipsoidBase):
    """Legacy ellipse: 'axes_length' are the semi axes."""

    def __init__(self, axes_length=None, radius=None, **kwargs):
        axes_length = np.array(
            axes_length if axes_length is not None else [radius, radius], dtype=float
        )
        if kwargs.get("pose") is None and kwargs.get("center_position") is None:
            kwargs["center_position"] = np.zeros(axes_length.shape[0])
        super().__init__(**kwargs)
        self.axes_length = axes_length

    def _semiaxes(self, margin):
        return self.axes_length + margin

    @property
    def axes_with_margin(self):
        return self.axes_length + self.margin_absolut


StarshapedEllipse = Ellipse


class EllipseWithAxes(_EllipsoidBase):
    """'axes_length' are the full axes (diameters)."""

    def __init__(self, axes_length, **kwargs):
        axes_length = np.array(axes_length, dtype=float)
        if kwargs.get("pose") is None and kwargs.get("center_position") is None:
            kwargs["center_position"] = np.zeros(axes_length.shape[0])
        super().__init__(**kwargs)
        self.axes_length = axes_length

    def _semiaxes(self, margin):
        return 0.5 * self.axes_length + margin

    @property
    def semiaxes(self):
        return 0.5 * self.axes_length

    @property
    def semiaxes_with_magin(self):
        return self._semiaxes(self.margin_absolut)

    @property
    def axes_with_margin(self):
        return self.axes_length + 2 * self.margin_absolut


HyperSphere = EllipseWithAxes


class CuboidXd(Obstacle):
    def __init__(self, axes_length, **kwargs):
        axes_length = np.array(axes_length, dtype=float)
        if kwargs.get("pose") is None and kwargs.get("center_position") is None:
            kwargs["center_position"] = np.zeros(axes_length.shape[0])
        super().__init__(**kwargs)
        self.axes_length = axes_length

    def _half(self, margin):
        return 0.5 * self.axes_length + margin

    @property
    def semiaxes(self):
        return 0.5 * self.axes_length

    @property
    def axes_with_margin(self):
        return self.axes_length + 2 * self.margin_absolut

    def _local_ray_radius(self, direction, margin):
        return 1.0 / np.max(np.abs(direction) / self._half(margin))

    def _local_distance(self, position, margin):
        return LA.norm(np.maximum(np.abs(position) - self._half(margin), 0.0))

    def _local_normal(self, position, margin):
        half = self._half(margin)
        excess = np.maximum(np.abs(position) - half, 0.0)
        norm = LA.norm(excess)
        if norm > 1e-12:
            return np.copysign(excess, position) / norm
        normal = np.zeros(self.dimension)
        ind = int(np.argmax(np.abs(position) / half))
        normal[ind] = math.copysign(1.0, position[ind])
        return normal

    def _local_ray_intersections(self, start, direction, margin):
        half = self._half(margin)
        low, high = -math.inf, math.inf
        for ss, dd, hh in zip(start, direction, half):
            if dd == 0:
                if abs(ss) > hh:
                    return None
                continue
            t0, t1 = sorted(((-hh - ss) / dd, (hh - ss) / dd))
            low, high = max(low, t0), min(high, t1)
        if low > high:
            return None
        return low, high

    def get_boundary_xy(self, in_global_frame=True, n_points=60):
        half = self._half(self._margin())
        signs = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1], [1, 1]]).T
        points = signs * half[:, np.newaxis]
        if in_global_frame:
            points = self.pose.transform_position_from_relative(points)
        return points


Cuboid = CuboidXd


class StarshapedFlower(Obstacle):
    def __init__(
        self, radius_magnitude=1.0, radius_mean=2.0, number_of_edges=4, **kwargs
    ):
        super().__init__(**kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    @property
    def axes_length(self):
        return np.ones(2) * self.radius_mean * 2

    def _local_ray_radius(self, direction, margin):
        angle = math.atan2(direction[1], direction[0])
        return (
            self.radius_mean
            + self.radius_magnitude * math.cos(angle * self.number_of_edges)
            + margin
        )

    def _local_normal(self, position, margin):
        angle = math.atan2(position[1], position[0])
        radius = self._local_ray_radius(position, margin)
        slope = (
            -self.radius_magnitude
            * self.number_of_edges
            * math.sin(angle * self.number_of_edges)
        )
        e_r = np.array([math.cos(angle), math.sin(angle)])
        e_t = np.array([-e_r[1], e_r[0]])
        normal = radius * e_r - slope * e_t
        return normal / LA.norm(normal)

    def _local_ray_intersections(self, start, direction, margin):
        direction = direction / (scale := LA.norm(direction))

        def level(tt):
            pos = start + tt * direction
            norm = LA.norm(pos)
            if not norm:
                return -1.0
            return norm - self._local_ray_radius(pos / norm, margin)

        reach = LA.norm(start) + self.radius_mean + self.radius_magnitude + margin
        grid = np.linspace(-reach * 1.1, reach * 1.1, 400)
        values = [level(tt) for tt in grid]
        roots = []
        for ii in range(len(grid) - 1):
            if (values[ii] < 0) != (values[ii + 1] < 0):
                lo, hi = grid[ii], grid[ii + 1]
                for _ in range(60):
                    mid = 0.5 * (lo + hi)
                    if (level(mid) < 0) == (values[ii] < 0):
                        lo = mid
                    else:
                        hi = mid
                roots.append(0.5 * (lo + hi) / scale)
        if not roots:
            return None
        positive = [rr for rr in roots if rr > 0]
        first = positive[0] if positive else roots[-1]
        return first, first


Polygon = CuboidXd
