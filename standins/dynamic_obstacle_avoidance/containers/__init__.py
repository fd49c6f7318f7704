import numpy as np


class BaseContainer:
    """List-like container of obstacles."""

    def __init__(self, obs_list=None):
        self._obstacle_list = [] if obs_list is None else list(obs_list)

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __iter__(self):
        return iter(self._obstacle_list)

    def __len__(self):
        return len(self._obstacle_list)

    def __repr__(self):
        return f"{type(self).__name__}({len(self)})"

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def list(self):
        return self._obstacle_list

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension

    def get_gamma(self, position, in_global_frame=True):
        return self.get_minimum_gamma(position)

    def get_minimum_gamma(self, position):
        return min(
            obs.get_gamma(position, in_global_frame=True)
            for obs in self._obstacle_list
        )

    def is_collision_free(self, position):
        return all(
            obs.get_gamma(position, in_global_frame=True) > 1
            for obs in self._obstacle_list
        )

    def check_collision(self, position):
        return not self.is_collision_free(position)

    def update_reference_points(self, *args, **kwargs):
        return None


class ObstacleContainer(BaseContainer):
    pass


class GradientContainer(ObstacleContainer):
    pass


class ShapelyContainer(ObstacleContainer):
    pass


class MultiBoundaryContainer(ObstacleContainer):
    pass
